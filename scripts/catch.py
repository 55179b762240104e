"""catch.py [id...]: apply each seed to /repo, run its property's check, undo; records scripts/caught.json"""
import json, os, subprocess, sys, time, re
R = '/verif'
os.chdir(R)
caught = json.load(open('scripts/caught.json')) if os.path.exists('scripts/caught.json') else {}
ids = sys.argv[1:] or sorted(d for d in os.listdir('seeded') if d not in caught)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True, text=True).stdout
for i in ids:
    m = json.load(open(f'seeded/{i}/meta.json'))
    p = m['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', f'{R}/seeded/{i}/patch.diff']).returncode:
        print(i, 'does not apply', flush=True); continue
    t = time.time()
    try:
        r = subprocess.run(['python3', 'scripts/check.py', p], capture_output=True, text=True, timeout=900)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', ''
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    open(f'/tmp/catch-{i}.log', 'w').write(out)
    v = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
    ok = rc == 1 and v
    e = ''
    if ok:
        mm = re.search(r'replay=\S*?/([^/\s]+?)\.?\w*$', v[0])
        e = mm.group(1) if mm else v[0]
    caught[i] = e if ok else False
    json.dump(caught, open('scripts/caught.json', 'w'), indent=1, sort_keys=True)
    print(i, p, 'CAUGHT' if ok else 'MISSED rc=%s' % rc, '%.0fs' % (time.time() - t), (v[0] if v else out.strip().splitlines()[-1] if out.strip() else '')[:150], flush=True)
