#!/usr/bin/env python3
"""mutate.py [-w WORKERS] [-n COUNT] [-s SEED] [-f FILE] OUT: applies small random changes to copies of /repo (in private
mount namespaces) and reports those that no entry notices. A tool for finding gaps; no check uses it."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
a = sys.argv[1:]
opt = dict(w=2, n=50, s=1, f='', j=4)
while a[0].startswith('-'):
    k = a[0][1]
    opt[k] = a[1] if k == 'f' else int(a[1])
    a = a[2:]
out = a[0]
enc = {}
for p in spec.P:
    try:
        enc[p['id']] = json.load(open('/verif/evidence/%s.json' % p['id']))['coverage']['functions_encoded']
    except Exception:
        enc[p['id']] = []
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' << ', ' >> '), (r' >> ', ' << '), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\b2\b', '1'),
       (r'with_add\b', 'with_sub'), (r'with_sub\b', 'with_add'), (r'wrapping_add\b', 'wrapping_sub'), (r'wrapping_sub\b', 'wrapping_add'), (r'\.rev\(\)', ''), (r'\bleft\b', 'right'), (r'\bright\b', 'left'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.\.=', '..'), (r'\.skip\(1\)', ''), (r'\bmax\b', 'min'), (r'\bmin\b', 'max'), (r'::one\(\)', '::zero()'), (r'::zero\(\)', '::one()'),
       (r'\((\w+), (\w+)\)', r'(\2, \1)'), (r'\((&?\w+), (&?\w+), ', r'(\2, \1, '), (r'\bct0\b', 'ct1'), (r'\bct1\b', 'ct0'), (r'level_count', 'base_log'), (r'key_switch_', 'negs_'), (r'negs_', 'key_switch_'),
       (r'\bwrite\b', 'read'), (r'\bi\b', '(i + 1)'), (r'\brows\b', 'cols'), (r'\bcols\b', 'rows'), (r'\bmask\b', 'body'), (r'_mut_body', '_mut_mask'), (r'get_body', 'get_mask')]


def mutants():
    r = []
    for f in sorted(glob.glob('/repo/src/*.rs')):
        n = os.path.basename(f)
        if opt['f'] and n not in opt['f'].split(','):
            continue
        L = open(f).read().split('\n')
        fn = None
        comment = False
        for i, l in enumerate(L):
            if '#[cfg(test)]' in l:
                break
            m = re.match(r'\s*(pub(\(crate\))? )?(const )?fn (\w+)', l)
            if m:
                fn = m.group(4)
                continue
            if '/*' in l: comment = True
            if '*/' in l:
                comment = False
                continue
            s = l.strip()
            if comment or not fn or not s or s.startswith(('//', '#', 'use ', 'assert', 'println', 'debug_assert', 'where', 'pub fn', 'fn ', 'pub struct')) or 'panacea_verif' in l:
                continue
            code = l.split('//')[0]
            for o, w in OPS:
                for m in re.finditer(o, code):
                    t = code[:m.start()] + m.expand(w) + code[m.end():]
                    if t != code:
                        r.append((n, i, fn, l, t))
            if re.match(r'\s*[\w.&*\[\]()]+\(.*\);$', code) or re.match(r'\s*\*?[\w.\[\]]+ [+\-*]?= .*;$', code):
                r.append((n, i, fn, l, ''))
    return r


M = mutants()
random.Random(opt['s']).shuffle(M)
q = queue.Queue()
for m in M[:opt['n']]:
    q.put(m)
print(len(M), 'mutants,', q.qsize(), 'tried', flush=True)
lock = threading.Lock()
res = open(out, 'a')


def relevant(n, fn):
    ids = []
    for p in spec.P:
        if any(re.search(r'(^|::)%s(::|$|<)' % re.escape(fn), x) for x in enc[p['id']]) and 'src/' + n in p['files']:
            ids.append(p)
    if not ids:
        ids = [p for p in spec.P if any(re.search(r'(^|::)%s(::|$|<)' % re.escape(fn), x) for x in enc[p['id']])]
    if not ids:
        ids = [p for p in spec.P if 'src/' + n in p['files']]
    e = []
    for p in ids:
        e += [x for x in p['quick'] if x not in e]
    return [p['id'] for p in ids], e


def work(w):
    d = '/tmp/mut%d' % w
    for x in ('repo', 'verif'):
        os.makedirs(d + '/' + x, exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', '/target', '/%s/' % x, d + '/%s/' % x] if shutil.which('rsync') else
                       ['bash', '-c', 'rm -rf %s/%s && mkdir %s/%s && cd /%s && tar c --exclude=./.git --exclude=./seeded --exclude=./target . | tar x -C %s/%s' % (d, x, d, x, x, d, x)], check=True)
    while True:
        try:
            n, i, fn, old, new = q.get_nowait()
        except queue.Empty:
            return
        f = d + '/repo/src/' + n
        orig = open('/repo/src/' + n).read()
        L = orig.split('\n')
        L[i] = new
        open(f, 'w').write('\n'.join(L))
        ids, ents = relevant(n, fn)
        o = '/verif/build/mut.json'
        cmd = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && rm -f %s && bash scripts/build_sym.sh >/dev/null 2>&1 || exit 7; timeout 400 engine/target/release/vpsym --ll build/sym/x86_64-unknown-linux-gnu/debug/deps --jobs %d --timeout 300 --grace 0 --maxviol 1 --mem 9000 --cex /tmp --out %s %s' % (d, d, o, opt['j'], o, ' '.join(reversed(ents)))
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True)
        if r.returncode == 7:
            v = 'NOBUILD'
        else:
            try:
                j = json.load(open(d + o))
                vs = [(e['entry'], x['msg'][:100]) for e in j for x in e['violations']]
                es = [(e['entry'], x[:200]) for e in j for x in e['errors'] if not x.startswith('not explored')]
                inc = [e['entry'] for e in j if any(x.startswith('not explored') for x in e['errors'])]
                v = 'VIOL %s' % (vs[0],) if vs else 'ERROR %s' % (es[0],) if es else 'INCOMPLETE %s' % inc[:5] if inc else 'SURVIVED %s' % ids
            except Exception as e:
                v = 'CRASH %r %s' % (e, r.stderr[-200:])
        open(f, 'w').write(orig)
        with lock:
            res.write('%s %s:%d %s\n   - %s\n   + %s\n   (%ds)\n' % (v, n, i + 1, fn, old.strip(), new.strip(), time.time() - t))
            res.flush()


ts = [threading.Thread(target=work, args=(w,)) for w in range(opt['w'])]
[t.start() for t in ts]
[t.join() for t in ts]
