#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.

Exit 0: held within the bounds. Exit 1 with a VIOLATION line: broken, with a replay file.
Exit 2: no answer (the tree does not build, or something could not be encoded)."""
import glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec

ROOT = spec.ROOT
os.chdir(ROOT)
T0 = time.time()
pid = sys.argv[1]
tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
if tier not in ('quick', 'thorough'):
    tier = 'quick'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
p = next(x for x in spec.P if x['id'] == pid)
VPSYM = 'engine/target/release/vpsym'
LL = 'build/sym/x86_64-unknown-linux-gnu/debug/deps'
NATIVE = 'build/native/debug/vnative'
CEX = 'build/cex-%s' % pid
BUDGET = 640 if tier == 'quick' else 6 * 3600
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
env.pop('RUSTFLAGS', None)
env.pop('CARGO_TARGET_DIR', None)


def log(*a):
    print(*a, flush=True)


def start(cmd, **kw):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)


def finish(pr, what):
    out, _ = pr.communicate()
    if pr.returncode != 0:
        log(out[-3000:])
        log('no answer: %s failed' % what)
        sys.exit(2)


def build_native():
    t = time.time()
    finish(start(['bash', 'scripts/build_native.sh']), 'building the native replay')
    log('native replay built in %.1fs' % (time.time() - t))


def native(f, extra=()):
    try:
        r = subprocess.run([NATIVE, *extra, f], capture_output=True, text=True, timeout=120, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    o = r.stdout + r.stderr
    k = {0: 'held', 1: 'violated', 3: 'unmet'}.get(r.returncode, 'crash %d' % r.returncode)
    return k, o


def engine_replay(f):
    try:
        r = subprocess.run([VPSYM, '--ll', LL, '--replay', f], capture_output=True, text=True, timeout=300, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout'
    m = re.search(r'^#result (.*)$', r.stdout, re.M)
    return m.group(1) if m else 'no result'


def known():
    k = []
    try:
        for l in open('known_findings.txt'):
            m = re.match(r'known: property=(\S+) entry=(\S+) message=(.*)$', l.strip())
            if m and m.group(1) == pid:
                k.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return k


# ---------------------------------------------------------------- build
a = start(['cargo', 'build', '--release', '--offline', '-q'], cwd='engine')
b = start(['bash', 'scripts/build_sym.sh'])
finish(b, 'building the IR of /repo')
finish(a, 'building the engine')
t_build = time.time() - T0
log('%s %s: IR of /repo and engine built in %.1fs' % (pid, tier, t_build))

# ---------------------------------------------------------------- explore
shutil.rmtree(CEX, ignore_errors=True)
os.makedirs(CEX)
os.makedirs('evidence', exist_ok=True)
names = spec.entries(p, tier)


def explore(names, budget):
    out = 'build/result-%s.json' % pid
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([VPSYM, '--ll', LL, '--jobs', '8', '--timeout', str(int(budget)), '--cex', CEX, '--out', out,
                        '--cert', '1' if tier == 'quick' else '30'] + names,
                       capture_output=True, text=True, env=env)
    if not os.path.exists(out):
        log(r.stderr[-2000:])
        log('no answer: the engine ended without a result')
        sys.exit(2)
    return json.load(open(out))


t = time.time()
res = explore(names, BUDGET - t_build)
t_exp = time.time() - t
viol = [(e['entry'], v) for e in res for v in e['violations']]
kn = known()
knownhits = []
confirmed = None
unconfirmed = []
native_built = False
validated = 0


def is_known(entry, msg):
    return any(e == entry and m in msg for e, m in kn)


def confirm(entry, v):
    """a counterexample counts when the real code reproduces it"""
    global native_built
    if v['msg'].startswith('secret-dependent'):
        # the trace property is about the compiled code itself; the interpretation of its IR is the witness
        return True, 'control-flow property: decided on the IR, path recorded'
    sched = v['msg'].startswith('deadlock') or re.search(r'^choice \d+ [1-9]\d* # preempt', open(v['file']).read(), re.M)
    if sched:
        # the native replay has no control over the order inside locks
        r = engine_replay(v['file'])
        return r.startswith('violation'), 'concrete interpretation of the IR under the recorded schedule: ' + r
    if not native_built:
        build_native()
        native_built = True
    k, o = native(v['file'])
    if k == 'violated' or k.startswith('crash'):
        return True, 'native replay: ' + o.strip()[-300:]
    # below the tolerance that the native floating-point transform needs: interpret the real
    # code's IR concretely with exact products
    if k in ('held', 'timeout', 'unmet'):
        r = engine_replay(v['file'])
        if r.startswith('violation'):
            return True, 'native replay: ' + k + ' (its floating-point transform needs a tolerance); exact interpretation of the IR: ' + r
    return False, 'native %s: %s' % (k, o.strip()[-200:])


for entry, v in viol:
    if is_known(entry, v['msg']):
        knownhits.append((entry, v['msg']))
        continue
    ok, why = confirm(entry, v)
    log('candidate %s: %s -- %s' % (entry, v['msg'], why))
    if ok:
        confirmed = (entry, v, why)
        break
    unconfirmed.append((entry, v['msg'], why))
for e in res:
    if e['entry'] in p['noinf'] and e['infeasible'] and not confirmed and not e['violations']:
        f = CEX + '/' + e['entry'] + '-unreachable.replay'
        open(f, 'w').write('# entry %s\n# %d paths of the cover goal are infeasible: some member of the set cannot be drawn\n' % (e['entry'], e['infeasible']))
        confirmed = (e['entry'], dict(msg='a member of the stated set cannot be generated', file=f), 'unsatisfiable cover goal')

errs = [(e['entry'], x) for e in res for x in e['errors'] if not x.startswith('not explored completely')]
incomplete = [e['entry'] for e in res if any(x.startswith('not explored completely') for x in e['errors'])]
if (knownhits or unconfirmed) and incomplete and not confirmed:
    # the engine stops after a few violations: explore what is left without the known ones
    more = explore([n for n in incomplete if n not in {k[0] for k in knownhits} | {u[0] for u in unconfirmed}], BUDGET - (time.time() - T0))
    incomplete = [e['entry'] for e in more if e['errors']]
    for e in more:
        for v in e['violations']:
            ok, why = confirm(e['entry'], v)
            if ok:
                confirmed = (e['entry'], v, why)
    res = [e for e in res if e['entry'] not in {m['entry'] for m in more}] + more

if not confirmed and (errs or incomplete or unconfirmed):
    # witness search: concrete interpretation of the entries left open, confirmed natively
    open_entries = sorted({e for e, _ in errs} | set(incomplete) | {u[0] for u in unconfirmed})
    for s in range(seed, seed + 12):
        if confirmed or time.time() - T0 > BUDGET + 60:
            break
        for en in open_entries:
            try:
                r = subprocess.run([VPSYM, '--ll', LL, '--concrete', str(s), en], capture_output=True, text=True, timeout=60, env=env)
            except subprocess.TimeoutExpired:
                continue
            m = re.search(r'^#result violation (.*)$', r.stdout, re.M)
            if m:
                f = '%s/%s-c%d.replay' % (CEX, en, s)
                body = [l for l in r.stdout.splitlines() if re.match(r'(u64|choice|draw) ', l)]
                open(f, 'w').write('# entry %s\n# %s\nentry %s\n%s\n' % (en, m.group(1), en, '\n'.join(body)))
                v = dict(msg=m.group(1), file=f)
                if is_known(en, v['msg']):
                    continue
                ok, why = confirm(en, v)
                log('candidate %s: %s -- %s' % (en, v['msg'], why))
                if ok:
                    confirmed = (en, v, why)
                    break

vac = [e['entry'] for e in res if not e['errors'] and not e['violations'] and (e['done'] + e['expected_panics'] == 0 or (not e['reach'] and not e['expected_panics']))]

# ---------------------------------------------------------------- thorough: model against code
samples = []
mismatch = []
if tier == 'thorough' and not confirmed:
    if not native_built:
        build_native()
        native_built = True
    for en in names:
        for s in range(seed, seed + 3):
            try:
                r = subprocess.run([VPSYM, '--ll', LL, '--concrete', str(s), en], capture_output=True, text=True, timeout=120, env=env)
            except subprocess.TimeoutExpired:
                continue
            m = re.search(r'^#result (.*)$', r.stdout, re.M)
            if not m or m.group(1) not in ('done', 'expected-panic'):
                continue
            f = CEX + '/validate.replay'
            body = [l for l in r.stdout.splitlines() if re.match(r'(u64|choice|draw) ', l)]
            open(f, 'w').write('entry %s\n%s\n' % (en, '\n'.join(body)))
            k, o = native(f)
            if k in ('held', 'timeout', 'unmet'):
                validated += 1
            else:
                mismatch.append('%s seed %d: engine %s, native %s %s' % (en, s, m.group(1), k, o.strip()[-200:]))

for e in res:
    samples.append({k: e[k] for k in ('entry', 'paths', 'done', 'expected_panics', 'infeasible', 'asserts', 'closed_by_rewriting', 'closed_by_smt', 'symbolic_branches', 'smt_queries', 'reach')})
funcs = sorted({f for e in res for f in e['panacea_functions']})
crates = {}
for e in res:
    for c, n in e['functions_per_crate'].items():
        crates[c] = max(crates.get(c, 0), n)
sm = lambda k: sum(e[k] for e in res)
ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
          coverage=dict(
              states=sm('paths'), transitions=sm('instructions'), traces_validated_against_impl=validated,
              samples=samples,
              explanation='states: symbolic paths explored to their end; transitions: IR instructions interpreted on them. Every assertion on every path is closed for all values of the symbolic variables, either by canonical rewriting modulo 2^64 or by a z3 verdict. On every path a sample of the rewriting steps (operation, arguments, canonical result), first those with a constant result, is put to z3 as a claim for all values of its atoms; a refuted step makes the check give no answer.',
              assertions=sm('asserts'), assertions_closed_by_rewriting=sm('closed_by_rewriting'), assertions_closed_by_smt=sm('closed_by_smt'),
              symbolic_branches_decided=sm('symbolic_branches'), smt_queries=sm('smt_queries'), smt_unsat=sm('smt_unsat'), smt_sat=sm('smt_sat'), smt_unknown=sm('smt_unknown'),
              solver_s=round(sm('smt_s'), 2), solver_max_s=max([e['smt_max_s'] for e in res] or [0]), engine_cpu_s=round(sm('exec_s'), 1),
              rewriting_steps=sm('rewriting_steps'), rewriting_steps_confirmed_by_z3=sm('steps_certified'), rewriting_steps_equal_to_a_confirmed_one=sm('steps_like_certified'),
              rewriting_steps_undecided_by_z3=sm('steps_undecided'), certify_s=round(sm('certify_s'), 2),
              build_s=round(t_build, 1), explore_s=round(t_exp, 1), entries=names, bounds=p['bounds'], outside_the_bounds='larger sizes, depths and histories; floating-point rounding of the transform; see assumptions',
              functions_encoded=funcs, functions_encoded_per_crate=crates,
              exhaustive=not (errs or incomplete or vac or confirmed or unconfirmed),
              unconfirmed=[list(u) for u in unconfirmed], errors=[list(x) for x in errs][:10], incomplete=incomplete, model_mismatches=mismatch[:10]),
          assumptions=spec.ASSUME, wall_s=round(time.time() - T0, 1), violations=1 if confirmed else 0)
json.dump(ev, open('evidence/%s.json' % pid, 'w'), indent=1)
for e, m in sorted(set(knownhits)):
    log('KNOWN-FINDING: property=%s %s: %s' % (pid, e, m))
log('%s: %d entries, %d paths, %d assertions (%d by rewriting, %d by z3), %d z3 queries, %d rewriting steps put to z3, %.1fs' % (pid, len(names), sm('paths'), sm('asserts'), sm('closed_by_rewriting'), sm('closed_by_smt'), sm('smt_queries'), sm('steps_certified') + sm('steps_like_certified'), time.time() - T0))
if confirmed:
    entry, v, why = confirmed
    dst = 'evidence/%s.replay' % pid
    shutil.copy(v['file'], dst)
    with open(dst, 'a') as f:
        f.write('# %s\n# %s\n' % (v['msg'].replace('\n', ' '), why.replace('\n', ' ')))
    log('%s fails: %s' % (entry, v['msg']))
    log('VIOLATION property=%s replay=%s' % (pid, dst))
    sys.exit(1)
if errs or incomplete or unconfirmed or vac or mismatch:
    for x in errs[:5]:
        log('not decided: %s: %s' % x)
    for u in unconfirmed[:5]:
        log('not reproduced by the real code: %s: %s (%s)' % u)
    for m in mismatch[:5]:
        log('model mismatch: ' + m)
    if incomplete or vac:
        log('not explored completely: %s; vacuous: %s' % (incomplete, vac))
    log('no answer for %s' % pid)
    sys.exit(2)
sys.exit(0)
