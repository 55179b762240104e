#!/usr/bin/env python3
# dev helper: dev.py [-j N] [-t timeout] pattern... : run matching harness entries, print one line each
import subprocess, sys, re, glob, json, os, time
os.chdir('/verif')
args = sys.argv[1:]; jobs = 8; to = 200
while args and args[0].startswith('-'):
    if args[0] == '-j': jobs = int(args[1])
    if args[0] == '-t': to = int(args[1])
    args = args[2:]
names = [n for f in glob.glob('harness/src/h_*.rs') for n in re.findall(r'^    fn (\w+)\(\)', open(f).read(), re.M)]
sel = [n for n in names if any(re.fullmatch(a, n) for a in args)]
os.makedirs('/tmp/cex', exist_ok=True)
t = time.time()
if os.path.exists('/tmp/dev.json'): os.remove('/tmp/dev.json')
r = subprocess.run(['engine/target/release/vpsym', '--ll', 'build/sym/x86_64-unknown-linux-gnu/debug/deps', '--cex', '/tmp/cex', '--timeout', str(to), '--jobs', str(jobs), '--out', '/tmp/dev.json'] + sel, capture_output=True, text=True)
if not os.path.exists('/tmp/dev.json'): print('no result', r.returncode, r.stderr[-1500:]); sys.exit(1)
for e in json.load(open('/tmp/dev.json')):
    bad = e['violations'] or e['errors']
    if bad and e['paths'] == 0 and not e['violations']: print('-   ', e['entry']); continue
    print(('BAD ' if bad else 'ok  ') + e['entry'], 'paths', e['paths'], 'done', e['done'], 'panics', e['expected_panics'], 'inf', e['infeasible'], 'asserts', e['asserts'], 'rw', e['closed_by_rewriting'], 'smt', e['closed_by_smt'], 'br', e['symbolic_branches'], 'Minstr %.1f' % (e['instructions']/1e6), 'exec %.1f' % e['exec_s'], 'smt_s %.1f' % e['smt_s'], e['reach'])
    for v in e['violations'][:2]: print('    V', v['msg'][:300], v['file'], '\n      ', str(v['stack'])[:600])
    for v in e['errors'][:2]: print('    E', v[:700])
print('%.1fs' % (time.time() - t), r.stderr[-300:] if r.returncode > 1 else '')
