#!/usr/bin/env python3
"""mkseed.py [-j N] [id...]: builds the planted changes of seeds/table.py, confirms each in a scratch copy of /repo
(compiles, passes the 42 stable tests, demo passes without and fails with it) and keeps the confirmed ones in /verif/seeded."""
import concurrent.futures as cf, difflib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE + '/seeds')
import table
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
SH = '''#!/bin/bash
# cwd: /repo after build.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
deps=$PWD/target/debug/deps
lib() { ls -t "$deps"/lib$1-*.rlib | head -1; }
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 -O -C target-cpu=x86-64-v3 -A warnings "$d/demo.rs" -o "$t/demo" --extern panacea="$(lib panacea)" --extern concrete_core="$(lib concrete_core)" --extern rayon="$(lib rayon)" --extern serde_json="$(lib serde_json)" -L dependency="$deps" || exit 9
if grep -q PROG "$d/demo.rs"; then
  rustc --edition 2021 -O -C target-cpu=x86-64-v3 -A warnings src/main.rs -o "$t/prog" --extern panacea="$(lib panacea)" --extern clap="$(lib clap)" --extern serde_json="$(lib serde_json)" -L dependency="$deps" || exit 9
  export PROG=$t/prog SCRATCH=$t
fi
timeout 200 "$t/demo"
'''


def patch_of(s):
    out = ''
    files = {}
    for f, old, new in s['edits']:
        t = files.get(f) or open('/repo/' + f).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        files[f] = t.replace(old, new)
    for f, t in files.items():
        a = open('/repo/' + f).read().splitlines(True)
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, t.splitlines(True), 'a/' + f, 'b/' + f))
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch(i):
    d = '/tmp/seedrepo%d' % i
    if not os.path.exists(d):
        run(['cp', '-a', '/repo', d])
    run(['git', 'checkout', '-q', '--', '.'], cwd=d)
    r = run(['bash', '-c', 'git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD'], cwd=d)
    os.makedirs(d + '/vp', exist_ok=True)
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', d)
        open(d + '/vp/' + n, 'w').write(t)
    return d


def one(s, d):
    p = patch_of(s)
    w = d + '/vp/seed'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    open(w + '/patch.diff', 'w').write(p)
    open(w + '/demo.rs', 'w').write(open(HERE + '/seeds/prelude.rs').read() + s['demo'])
    open(w + '/demo.sh', 'w').write(SH)
    run(['git', 'checkout', '-q', '--', '.'], cwd=d)
    b = run(['bash', d + '/vp/build.sh'])
    if b.returncode:
        return 'clean build fails ' + b.stderr[-500:]
    for k in range(2):
        r = run(['bash', w + '/demo.sh'], cwd=d)
        if r.returncode:
            return 'demo fails on the clean tree (%d): %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    r = run(['git', 'apply', w + '/patch.diff'], cwd=d)
    if r.returncode:
        return 'patch does not apply ' + r.stderr
    try:
        b = run(['bash', d + '/vp/build.sh'])
        if b.returncode:
            return 'build fails with the patch: ' + b.stderr[-1500:]
        r = run(['bash', w + '/demo.sh'], cwd=d)
        if r.returncode == 0:
            return 'demo passes with the patch'
        if r.returncode == 9:
            return 'demo does not compile with the patch'
        how = (r.stdout + r.stderr).strip()[-200:]
        out = w + '/out.json'
        run(['bash', d + '/vp/test.sh', out])
        try:
            o = json.load(open(out))
        except Exception as e:
            return 'no test result'
        passed = set(o.get('passed', [])) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v in ('pass', 'passed')}
        bad = [x for x in BASE if x not in passed]
        if bad:
            return 'tests fail: %s' % bad[:4]
    finally:
        run(['git', 'checkout', '-q', '--', '.'], cwd=d)
    dst = ROOT + '/seeded/' + s['id']
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for n in ('patch.diff', 'demo.rs', 'demo.sh'):
        shutil.copy(w + '/' + n, dst + '/' + n)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
    return 'CONFIRMED ' + how.replace('\n', ' ')


def main():
    a = sys.argv[1:]
    j = 4
    if a and a[0] == '-j':
        j = int(a[1])
        a = a[2:]
    todo = [s for s in table.S if (s['id'] in a if a else not os.path.exists(ROOT + '/seeded/' + s['id'] + '/meta.json'))]
    import queue
    q = queue.Queue()
    for i in range(j):
        q.put(scratch(i))

    def work(s):
        d = q.get()
        try:
            return s['id'], one(s, d)
        except Exception as e:
            return s['id'], 'error %r' % e
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(j) as ex:
        for i, r in ex.map(work, todo):
            print(i, r, flush=True)


main()
