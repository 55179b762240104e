#!/usr/bin/env python3
"""Generate the environment overlay crates from the cargo registry sources.
usage: gen.py OUTDIR   -> OUTDIR/{concrete-core,concrete-csprng,concrete-fft,rayon-core,rand}"""
import sys, os, glob, shutil, re
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
cargo_home = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))
reg = glob.glob(cargo_home + '/registry/src/*/concrete-core-1.0.2')
assert reg, 'cargo registry sources not found'
reg = os.path.dirname(reg[0])

def copy(name, ver):
    dst = f'{out}/{name}'
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(f'{reg}/{name}-{ver}', dst, ignore=shutil.ignore_patterns('benches', 'examples', 'tests', 'target', '.cargo-ok', 'Cargo.lock', '*.md'))
    # README referenced by docs
    for f in glob.glob(f'{reg}/{name}-{ver}/*.md'):
        shutil.copy(f, dst)
    return dst

def sub(path, old, new, count=1):
    s = open(path).read()
    assert old in s, (path, old)
    s = s.replace(old, new) if count == 0 else s.replace(old, new, count)
    open(path, 'w').write(s)

def strip_targets(dst):
    # drop [[bench]], [[test]], [[example]] sections whose files we did not copy
    p = dst + '/Cargo.toml'
    s = open(p).read()
    parts = re.split(r'(?m)^(?=\[)', s)
    parts = [x for x in parts if not re.match(r'\[\[(bench|test|example)\]\]', x) and not re.match(r'\[dev-dependencies', x)
             and not re.match(r"\[target\..*dev-dependencies", x)]
    open(p, 'w').write(''.join(parts))

os.makedirs(out, exist_ok=True)

# ---------------------------------------------------------------- concrete-csprng
d = copy('concrete-csprng', '0.2.2'); strip_targets(d)
shutil.copy(here + '/files/csprng_soft.rs', d + '/src/generators/implem/soft.rs')
shutil.rmtree(d + '/src/generators/implem/soft')
p = d + '/src/generators/implem/mod.rs'
open(p, 'w').write('mod soft;\npub use soft::*;\n')
p = d + '/src/generators/mod.rs'
sub(p, 'fn next_byte(&mut self) -> Option<u8> {', '''#[doc(hidden)]
    fn vp_draw(&mut self, _kind: u32, _nbytes: u32) -> u64 {
        panic!("vp: generator without verification hook")
    }
    #[doc(hidden)]
    fn vp_gauss(&mut self, _std_bits: u64) -> u64 {
        panic!("vp: generator without verification hook")
    }
    fn next_byte(&mut self) -> Option<u8> {''')
sub(p, 'mod aes_ctr;\n', '')
open(d + '/src/seeders/implem/unix.rs', 'w').write('''use crate::seeders::{Seed, Seeder};
extern "C" { fn __vp_entropy(kind: u32) -> u64; }
fn ent(kind: u32) -> u128 { unsafe { let lo = __vp_entropy(kind) as u128; let hi = __vp_entropy(kind) as u128; lo | (hi << 64) } }
/// Overlay: /dev/random and the clock are replaced by unconstrained values.
pub struct UnixSeeder { counter: u128, secret: u128 }
impl UnixSeeder {
    pub fn new(secret: u128) -> UnixSeeder { UnixSeeder { secret, counter: 0 } }
}
impl Seeder for UnixSeeder {
    fn seed(&mut self) -> Seed {
        let output = self.secret ^ self.counter ^ ent(1);
        self.counter = self.counter.wrapping_add(1);
        Seed(output)
    }
    fn is_available() -> bool { true }
}
''')

# ---------------------------------------------------------------- concrete-fft (symbolic build only)
d = f'{out}/concrete-fft'
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + '/src')
open(d + '/Cargo.toml', 'w').write('''[package]
name = "concrete-fft"
version = "0.1.0"
edition = "2021"
[features]
default = ["std"]
std = []
nightly = []
serde = ["dep:serde_crate", "num-complex/serde"]
[dependencies]
num-complex = "0.4"
dyn-stack = { version = "0.8", default-features = false }
aligned-vec = { version = "0.5", default-features = false }
serde_crate = { package = "serde", version = "1.0", optional = true, default-features = false }
''')
s = open(here + '/files/concrete_fft_lib.rs').read()
s = s.replace('serde::', 'serde_crate::')
# only with the serde feature
s = s.replace('        pub fn serialize_fourier_buffer', '        #[cfg(feature = "serde")]\n        pub fn serialize_fourier_buffer')
s = s.replace("        pub fn deserialize_fourier_buffer", '        #[cfg(feature = "serde")]\n        pub fn deserialize_fourier_buffer')
open(d + '/src/lib.rs', 'w').write(s)

# ---------------------------------------------------------------- rand
d = copy('rand', '0.8.5'); strip_targets(d)
p = d + '/src/rngs/thread.rs'
s = open(p).read()
i = s.index('impl RngCore for ThreadRng {'); j = s.index('impl CryptoRng for ThreadRng')
s = s[:i] + '''extern "C" { fn __vp_entropy(kind: u32) -> u64; }
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { unsafe { __vp_entropy(0) as u32 } }
    fn next_u64(&mut self) -> u64 { unsafe { __vp_entropy(0) } }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = unsafe { __vp_entropy(0) as u8 }; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
''' + s[j:]
s = re.sub(r'pub fn thread_rng\(\) -> ThreadRng \{.*?\n\}', '''pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: core::marker::PhantomData }
}''', s, flags=re.S)
s = re.sub(r'pub struct ThreadRng \{.*?\n\}', '''pub struct ThreadRng {
    _p: core::marker::PhantomData<std::rc::Rc<()>>,
}''', s, flags=re.S)
i = s.index('thread_local!('); j = s.index('/// Retrieve the lazily-initialized')
s = s[:i] + s[j:]
open(p, 'w').write(s)
sub(d + '/src/seq/mod.rs', '''    if ubound <= (core::u32::MAX as usize) {
        rng.gen_range(0..ubound as u32) as usize
    } else {
        rng.gen_range(0..ubound)
    }''', '''    // overlay: an unconstrained index below the bound
    extern "C" { fn __vp_index(n: u64) -> u64; }
    let _ = rng;
    unsafe { __vp_index(ubound as u64) as usize }''')

sub(d + '/src/seq/mod.rs', '''        for i in (1..self.len()).rev() {
            // invariant: elements with index > i have been locked in place.''', '''        // overlay: the result may be an unconstrained permutation
        extern "C" { fn __vp_shuffle(p: *mut u8, n: u64, size: u64) -> u32; }
        if unsafe { __vp_shuffle(self.as_mut_ptr() as *mut u8, self.len() as u64, core::mem::size_of::<T>() as u64) } == 1 {
            return;
        }
        for i in (1..self.len()).rev() {
            // invariant: elements with index > i have been locked in place.''')

# ---------------------------------------------------------------- rayon-core
d = copy('rayon-core', '1.12.0'); strip_targets(d)
p = d + '/src/join/mod.rs'
s = open(p).read()
i = s.index('    #[inline]\n    fn call_a<R>'); 
j = s.index('/// If job A panics, we still cannot return')
s = s[:i] + '''    crate::vp::join(oper_a, oper_b)
}

''' + '/*' + s[j:].replace('/*','').replace('*/','') + '*/\n'
s = s.replace('use crate::job::StackJob;\nuse crate::latch::SpinLatch;\nuse crate::registry::{self, WorkerThread};\nuse crate::unwind;\nuse std::any::Any;\n', '')
s = s.replace('#[cfg(test)]\nmod test;\n', '')
open(p, 'w').write(s)
p = d + '/src/lib.rs'
sub(p, '    crate::sleep::THREADS_MAX\n', '    crate::vp::threads()\n')
sub(p, '    crate::registry::Registry::current_num_threads()\n', '    crate::vp::threads()\n')
sub(p, 'pub use self::thread_pool::current_thread_index;', 'pub use self::vp::current_thread_index;')
s = open(p).read()
i = s.index('pub use self::broadcast::{'); j = s.index('use self::registry::{CustomSpawn')
s = s[:i] + '''pub use self::join::{join, join_context};
pub use self::registry::ThreadBuilder;
pub use self::vp::*;

''' + s[j:]
open(p, 'w').write(s)
for m in 'scope', 'broadcast', 'spawn', 'thread_pool':
    sub(p, 'mod %s;\n' % m, '')
sub(p, '''        ThreadPool::build(self)
''', '''        Ok(ThreadPool { n: self.num_threads })
''')
sub(p, '''        let registry = registry::init_global_registry(self)?;
        registry.wait_until_primed();
        Ok(())
''', '''        crate::vp::set_threads(self.num_threads);
        Ok(())
''')
sub(p, 'mod job;\n', 'mod vp;\nmod job;\n')
s = open(p).read()
s = '#![allow(dead_code, unused, static_mut_refs)]\n' + s.replace('#![deny(missing_debug_implementations)]', '').replace('#![deny(missing_docs)]', '').replace('#![deny(unreachable_pub)]', '').replace('#![warn(rust_2018_idioms)]', '')
open(p, 'w').write(s)
open(d + '/src/vp.rs', 'w').write('''//! Overlay: a fork-join scheduler whose interleaving is chosen by the verification environment.
use crate::FnContext;
extern "C" { fn __vp_sched(n: u32) -> u32; fn __vp_threads() -> u32; fn __vp_preempt(n: u32) -> u32; fn __vp_resume(); }
static mut DEPTH: usize = 0;
static mut TID: usize = 0;
static mut NEXT: usize = 0;
/// the second halves of joins that are still to run, innermost last
static mut PENDING: [*mut Job; 64] = [core::ptr::null_mut(); 64];
static mut NPENDING: usize = 0;
/// workers stopped in the middle of a task by a preemption
static mut BUSY: [usize; 64] = [0; 64];
struct Job {
    /// the worker it runs on
    tid: usize,
    /// taken by another worker (else it waits in the queue of the worker that pushed it)
    stolen: bool,
    done: bool,
    data: *mut (),
    run: unsafe fn(*mut (), bool),
}
impl Job {
    unsafe fn go(&mut self) {
        let tid = TID;
        self.done = true;
        TID = self.tid;
        (self.run)(self.data, self.stolen);
        TID = tid;
    }
}
struct Half<F, R> {
    f: Option<F>,
    r: Option<R>,
}
unsafe fn run_half<F: FnOnce(FnContext) -> R, R>(p: *mut (), migrated: bool) {
    let h = &mut *(p as *mut Half<F, R>);
    let f = h.f.take().unwrap();
    h.r = Some(f(FnContext::new(migrated)));
}
static mut POOL: usize = 0;
pub(super) fn threads() -> usize { unsafe { if POOL != 0 { POOL } else { __vp_threads() as usize } } }
pub(super) fn set_threads(n: usize) { unsafe { POOL = n; } }
/// Thread index of the running task: `None` outside the pool, as in rayon.
pub fn current_thread_index() -> Option<usize> {
    unsafe { if DEPTH == 0 { None } else { Some(TID) } }
}
/// Called before every lock operation: a task stolen by another worker may run here.
#[no_mangle]
pub extern "C" fn __vp_yield() {
    unsafe {
        let mut cand = [0usize; 64];
        let mut n = 0;
        for i in 0..NPENDING {
            let j = &*PENDING[i];
            if j.stolen && !j.done && j.tid != TID && BUSY[j.tid] == 0 {
                cand[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        let c = __vp_preempt(1 + n as u32) as usize;
        if c == 0 {
            return;
        }
        let tid = TID;
        BUSY[tid] += 1;
        (*PENDING[cand[c - 1]]).go();
        BUSY[tid] -= 1;
        __vp_resume();
    }
}
pub(super) fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
{
    unsafe {
        detached();
        let injected = DEPTH == 0;
        let tid = if injected { 0 } else { TID };
        DEPTH += 1;
        TID = tid;
        // 0: b stays on this worker; 1: b was stolen by another worker and finished first;
        // 2: b was stolen and runs while or after a does
        let c = __vp_sched(3);
        let mut other = tid;
        if c != 0 {
            NEXT += 1;
            let n = threads();
            other = (tid + 1 + NEXT % if n > 1 { n - 1 } else { 1 }) % n;
            let mut k = 0;
            while k < n && (BUSY[other] != 0 || other == tid) {
                other = (other + 1) % n;
                k += 1;
            }
            if k == n {
                other = tid;
            }
        }
        let mut half: Half<B, RB> = Half { f: Some(oper_b), r: None };
        let mut job = Job { tid: other, stolen: other != tid, done: false, data: &mut half as *mut Half<B, RB> as *mut (), run: run_half::<B, RB> };
        if c == 1 {
            job.go();
        }
        let at = NPENDING;
        if at < 64 {
            PENDING[at] = &mut job;
            NPENDING += 1;
        }
        let a = oper_a(FnContext::new(injected));
        TID = tid;
        if c == 2 && !job.done {
            // waiting for b: this worker may take the next task from its own queue
            let mut i = at;
            while i > 0 {
                i -= 1;
                let j = PENDING[i];
                if (*j).done || (*j).stolen || (*j).tid != tid {
                    continue;
                }
                if __vp_sched(2) == 1 {
                    (*j).go();
                }
                break;
            }
        }
        if !job.done {
            job.go();
        }
        NPENDING = at;
        TID = tid;
        DEPTH -= 1;
        (a, half.r.unwrap())
    }
}

// ---- scopes, spawned tasks, pools, broadcasts: a spawned task runs at once on another worker, or later
type Body<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
pub struct Scope<'scope> {
    q: std::cell::RefCell<std::collections::VecDeque<Body<'scope>>>,
}
pub struct ScopeFifo<'scope> {
    s: Scope<'scope>,
}
unsafe impl<'scope> Sync for Scope<'scope> {}
unsafe impl<'scope> Sync for ScopeFifo<'scope> {}
unsafe impl<'scope> Send for Scope<'scope> {}
unsafe impl<'scope> Send for ScopeFifo<'scope> {}
unsafe fn on<R>(tid: usize, f: impl FnOnce() -> R) -> R {
    let old = TID;
    DEPTH += 1;
    TID = tid;
    let r = f();
    TID = old;
    DEPTH -= 1;
    r
}
unsafe fn another() -> usize {
    let n = threads();
    let tid = if DEPTH == 0 { 0 } else { TID };
    NEXT += 1;
    let mut other = (tid + 1 + NEXT % if n > 1 { n - 1 } else { 1 }) % n;
    let mut k = 0;
    while k < n && BUSY[other] != 0 {
        other = (other + 1) % n;
        k += 1;
    }
    other
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { q: Default::default() }
    }
    pub fn spawn<BODY: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, body: BODY) {
        unsafe {
            if __vp_sched(2) == 1 {
                let tid = TID;
                BUSY[tid] += 1;
                on(another(), || body(self));
                BUSY[tid] -= 1;
                return;
            }
        }
        self.q.borrow_mut().push_back(Box::new(body));
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let body = std::sync::Arc::new(body);
        for i in 0..threads() {
            let body = body.clone();
            self.q.borrow_mut().push_back(Box::new(move |s| {
                unsafe { on(i, || body(s, BroadcastContext { index: i, _marker: std::marker::PhantomData })) }
            }));
        }
    }
    fn finish(&self) {
        loop {
            let n = self.q.borrow().len();
            if n == 0 {
                return;
            }
            unsafe {
                // the worker takes its newest task, or another worker steals the oldest
                let c = if n == 1 { 0 } else { __vp_sched(2) };
                let b = if c == 0 { self.q.borrow_mut().pop_back() } else { self.q.borrow_mut().pop_front() }.unwrap();
                let tid = if c == 0 { TID } else { another() };
                on(tid, || b(self));
            }
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope>(&self, body: BODY) {
        self.s.spawn(move |_| {
            let s = ScopeFifo { s: Scope::new() };
            body(&s);
            s.s.finish();
        });
    }
}
pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(op: OP) -> R {
    unsafe {
        let tid = if DEPTH == 0 { 0 } else { TID };
        on(tid, || {
            let s = Scope::new();
            let r = op(&s);
            s.finish();
            r
        })
    }
}
pub fn scope_fifo<'scope, OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP: FnOnce(&ScopeFifo<'scope>) -> R, R>(op: OP) -> R {
    unsafe {
        let tid = if DEPTH == 0 { 0 } else { TID };
        on(tid, || {
            let s = ScopeFifo { s: Scope::new() };
            let r = op(&s);
            s.s.finish();
            r
        })
    }
}
/// tasks of `spawn` that wait for a free worker
static mut DETACHED: std::collections::VecDeque<Box<dyn FnOnce() + Send>> = std::collections::VecDeque::new();
unsafe fn detached() {
    while let Some(b) = DETACHED.pop_front() {
        on(another(), b);
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(func: F) {
    unsafe {
        if __vp_sched(2) == 1 {
            on(another(), func);
        } else {
            DETACHED.push_back(Box::new(func));
        }
    }
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(func: F) {
    spawn(func)
}
pub struct BroadcastContext<'a> {
    index: usize,
    _marker: std::marker::PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        threads()
    }
}
pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(op: OP) -> Vec<R> {
    (0..threads()).map(|i| unsafe { on(i, || op(BroadcastContext { index: i, _marker: std::marker::PhantomData })) }).collect()
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    broadcast(op);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    unsafe { if DEPTH == 0 { None } else { detached(); Some(Yield::Idle) } }
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    unsafe { if DEPTH == 0 { None } else { Some(false) } }
}
#[derive(Debug)]
pub struct ThreadPool {
    pub(crate) n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        unsafe {
            let (p, t, d) = (POOL, TID, DEPTH);
            POOL = self.n;
            TID = 0;
            DEPTH = 1;
            let r = op();
            POOL = p;
            TID = t;
            DEPTH = d;
            r
        }
    }
    pub fn current_num_threads(&self) -> usize {
        self.install(|| threads())
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        None
    }
    pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(&self, a: A, b: B) -> (RA, RB) {
        self.install(|| crate::join(a, b))
    }
    pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(&self, op: OP) -> R {
        self.install(|| scope(op))
    }
    pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(&self, op: OP) -> R {
        in_place_scope(op)
    }
    pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(&self, op: OP) -> Vec<R> {
        self.install(|| broadcast(&op))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        self.install(|| spawn(op))
    }
}
''')

# ---------------------------------------------------------------- concrete-core
d = copy('concrete-core', '1.0.2'); strip_targets(d)
# the repository does not use concrete-core's serialisation
s = open(d + '/Cargo.toml').read()
s = s.replace('    "backend_default_serialization",\n    "backend_fft",\n    "backend_fft_serialization",\n', '    "backend_fft",\n', 1)
assert s.count('"backend_fft",') >= 1
open(d + '/Cargo.toml', 'w').write(s)
r = d + '/src/commons/math/random/'
sub(r + 'generator.rs', '    pub fn generate_next(&mut self) -> u8 {', '''    #[doc(hidden)]
    pub fn vp_draw(&mut self, kind: u32, nbytes: u32) -> u64 { self.0.vp_draw(kind, nbytes) }
    #[doc(hidden)]
    pub fn vp_gauss(&mut self, std_bits: u64) -> u64 { self.0.vp_gauss(std_bits) }
    pub fn generate_next(&mut self) -> u8 {''')
s = open(r + 'uniform.rs').read()
i = s.index('                let mut buf'); j = s.index('            }\n        }\n    };')
s = s[:i] + '''                let n = std::mem::size_of::<$T>() as u32;
                if n <= 8 {
                    generator.vp_draw(0, n) as $T
                } else {
                    let lo = generator.vp_draw(4, 8) as u128;
                    let hi = generator.vp_draw(4, 8) as u128;
                    (lo | (hi << 64)) as $T
                }
''' + s[j:]
open(r + 'uniform.rs', 'w').write(s)
s = open(r + 'uniform_binary.rs').read()
i = s.index('                if generator'); j = s.index('            }\n        }\n    };')
s = s[:i] + '                generator.vp_draw(1, 1) as $T\n' + s[j:]
s2 = open(r + 'uniform_lsb.rs').read()
old = '<$T>::generate_one(generator, Uniform) >> (<$T as Numeric>::BITS - n)'
assert old in s2
# mark these values as no mask coefficients (see the MASKS setting of the engine)
s2 = s2.replace(old, """{
                    unsafe { __vp_cfg(16, 1) };
                    let x = <$T>::generate_one(generator, Uniform) >> (<$T as Numeric>::BITS - n);
                    unsafe { __vp_cfg(16, 0) };
                    x
                }""").replace('macro_rules!', 'extern "C" { fn __vp_cfg(k: u64, v: u64); }\nmacro_rules!', 1)
open(r + 'uniform_lsb.rs', 'w').write(s2)
open(r + 'uniform_binary.rs', 'w').write(s)
s = open(r + 'uniform_ternary.rs').read()
i = s.index('                loop {'); j = s.index('            }\n        }\n    };')
s = s[:i] + '                generator.vp_draw(2, 1) as $T\n' + s[j:]
open(r + 'uniform_ternary.rs', 'w').write(s)
s = open(r + 'gaussian.rs').read()
i = s.index('                let output: ($T, $T);'); j = s.index('            }\n        }\n    };')
s = s[:i] + '                let _ = (std, mean, generator);\n                panic!("vp: floating-point gaussian sample not modelled")\n' + s[j:]
i = s.index('impl<Torus> RandomGenerable<Gaussian<f64>> for (Torus, Torus)')
s = s[:i] + '''fn vp_noise<Torus: UnsignedTorus, G: ByteRandomGenerator>(
    generator: &mut RandomGenerator<G>,
    distribution: Gaussian<f64>,
) -> Torus {
    assert!(distribution.mean == 0.0, "vp: non-zero gaussian mean");
    assert!(std::mem::size_of::<Torus>() == 8, "vp: only 64-bit torus is modelled");
    let v: u64 = generator.vp_gauss(distribution.std.to_bits());
    unsafe { std::mem::transmute_copy::<u64, Torus>(&v) }
}

impl<Torus> RandomGenerable<Gaussian<f64>> for (Torus, Torus)
where
    Torus: UnsignedTorus,
{
    fn generate_one<G: ByteRandomGenerator>(
        generator: &mut RandomGenerator<G>,
        distribution: Gaussian<f64>,
    ) -> Self {
        let a = vp_noise(generator, distribution);
        let b = vp_noise(generator, distribution);
        (a, b)
    }
}

impl<Torus> RandomGenerable<Gaussian<f64>> for Torus
where
    Torus: UnsignedTorus,
{
    fn generate_one<G: ByteRandomGenerator>(
        generator: &mut RandomGenerator<G>,
        distribution: Gaussian<f64>,
    ) -> Self {
        let a = vp_noise(generator, distribution);
        let _: Torus = vp_noise(generator, distribution);
        a
    }
}
'''
open(r + 'gaussian.rs', 'w').write(s)
# decomposition hooks
HOOK = '''
#[doc(hidden)]
pub(crate) fn vp_hook<S: UnsignedInteger>(base_log: usize, state: &mut S) -> Option<S> {
    extern "C" { fn __vp_decomp(base_log: u32, state: *mut u64, out: *mut u64) -> u32; }
    if std::mem::size_of::<S>() != 8 { return None; }
    let mut out = S::ZERO;
    unsafe {
        if __vp_decomp(base_log as u32, state as *mut S as *mut u64, &mut out as *mut S as *mut u64) != 0 { Some(out) } else { None }
    }
}
'''
p = d + '/src/commons/math/decomposition/iter.rs'
sub(p, 'let res = *state & mod_b_mask;', 'if let Some(r) = vp_hook(base_log, state) { return r; }\n    let res = *state & mod_b_mask;')
open(p, 'a').write(HOOK)
p = d + '/src/backends/fft/private/math/decomposition.rs'
sub(p, 'let res = *state & mod_b_mask;', 'if let Some(r) = vp_hook(base_log, state) { return r; }\n    let res = *state & mod_b_mask;')
open(p, 'a').write(HOOK)
p = d + '/src/commons/math/decomposition/decomposer.rs'
sub(p, '        // The closest number representable by the decomposition can be computed by performing', '''        extern "C" { fn __vp_closest(bits: u32, x: *mut u64, out: *mut u64) -> u32; }
        let mut input = input;
        if std::mem::size_of::<Scalar>() == 8 {
            let mut out = Scalar::ZERO;
            unsafe {
                if __vp_closest((self.level_count * self.base_log) as u32, &mut input as *mut Scalar as *mut u64, &mut out as *mut Scalar as *mut u64) != 0 {
                    return out;
                }
            }
        }
        // The closest number representable by the decomposition can be computed by performing''')
# FFT
p = d + '/src/backends/fft/private/math/fft/mod.rs'
s = open(p).read()
s = s.replace('        unsafe { self.forward_with_conv(fourier, standard, convert_forward_torus, stack) }',
 '        #[cfg(vp_sym)]\n        return vp_fwd(self, fourier, standard, 0, stack);\n        #[cfg(not(vp_sym))]\n        unsafe { self.forward_with_conv(fourier, standard, convert_forward_torus, stack) }')
s = s.replace('        unsafe { self.forward_with_conv(fourier, standard, convert_forward_integer, stack) }',
 '        #[cfg(vp_sym)]\n        return vp_fwd(self, fourier, standard, 1, stack);\n        #[cfg(not(vp_sym))]\n        unsafe { self.forward_with_conv(fourier, standard, convert_forward_integer, stack) }')
s = s.replace('        unsafe { self.backward_with_conv(standard, fourier, convert_backward_torus, stack) }',
 '        #[cfg(vp_sym)]\n        return vp_bwd(self, standard, fourier, 0, stack);\n        #[cfg(not(vp_sym))]\n        unsafe { self.backward_with_conv(standard, fourier, convert_backward_torus, stack) }')
old = '''        unsafe {
            self.backward_with_conv(
                standard.into_uninit(),
                fourier,
                convert_add_backward_torus,
                stack,
            )
        }'''
assert old in s
s = s.replace(old, '        #[cfg(vp_sym)]\n        return unsafe { vp_bwd(self, standard.into_uninit(), fourier, 1, stack) };\n        #[cfg(not(vp_sym))]\n' + old)
s = s.replace("Twisties::new(n / 2),\n                        Plan", "if cfg!(vp_sym) { Twisties { re: avec![0.0; n / 2].into_boxed_slice(), im: avec![0.0; n / 2].into_boxed_slice() } } else { Twisties::new(n / 2) },\n                        Plan")
# portable conversion kernels (the vector ones need rings of at least 16 coefficients)
s = s.replace('#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]\n    {', '#[cfg(vp_vector_kernels)]\n    {')
s = s.replace('#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]', '#[cfg(not(vp_vector_kernels))]')
s = s.replace('#[cfg(test)]\nmod tests;', '''#[cfg(vp_sym)]
extern "C" {
    fn __vp_fft_fwd(out: *mut f64, inp: *const u64, n: u64, kind: u32);
    fn __vp_fft_bwd(out: *mut u64, inp: *const f64, n: u64, add: u32);
}
#[cfg(vp_sym)]
fn vp_fwd<'out, Scalar: UnsignedTorus>(
    _fft: FftView<'_>,
    fourier: FourierPolynomialUninitMutView<'out>,
    standard: Polynomial<&'_ [Scalar]>,
    kind: u32,
    stack: DynStack<'_>,
) -> FourierPolynomialMutView<'out> {
    let fourier = fourier.data;
    let standard = standard.tensor.into_container();
    let n = standard.len();
    assert_eq!(n, 2 * fourier.len());
    assert_eq!(n, _fft.polynomial_size().0);
    assert!(std::mem::size_of::<Scalar>() == 8);
    // same scratch requirement as the real transform
    let _ = stack.make_aligned_uninit::<c64>(n / 2, 64);
    unsafe {
        __vp_fft_fwd(fourier.as_mut_ptr() as *mut f64, standard.as_ptr() as *const u64, n as u64, kind);
        FourierPolynomialMutView { data: assume_init_mut(fourier) }
    }
}
#[cfg(vp_sym)]
fn vp_bwd<'out, Scalar: UnsignedTorus>(
    _fft: FftView<'_>,
    standard: PolynomialUninitMutView<'out, Scalar>,
    fourier: FourierPolynomialView<'_>,
    add: u32,
    stack: DynStack<'_>,
) {
    let fourier = fourier.data;
    let standard = standard.tensor.into_container();
    let n = standard.len();
    assert_eq!(n, 2 * fourier.len());
    assert_eq!(n, _fft.polynomial_size().0);
    assert!(std::mem::size_of::<Scalar>() == 8);
    let (_tmp, stack) = stack.make_aligned_uninit::<c64>(n / 2, 64);
    let _ = stack.make_aligned_uninit::<c64>(n / 2, 64);
    unsafe {
        __vp_fft_bwd(standard.as_mut_ptr() as *mut u64, fourier.as_ptr() as *const f64, n as u64, add);
    }
}
''')
open(p, 'w').write(s)
p = d + '/src/backends/fft/private/crypto/ggsw.rs'
sub(p, '    let ptr_fn = || -> unsafe fn', '    #[cfg(vp_sym)]\n    let ptr_fn = || -> unsafe fn(&mut [MaybeUninit<c64>], &[c64], &[c64], bool) { update_with_fmadd_scalar };\n    #[cfg(not(vp_sym))]\n    let ptr_fn = || -> unsafe fn')
# the native FMA kernel handles two complex numbers per step; tiny rings (N = 2) have one
s = open(p).read()
s = s.replace('if is_x86_feature_detected!("fma") {', 'if output_fft_buffer_len_even && is_x86_feature_detected!("fma") {')
s = s.replace('    #[cfg(vp_sym)]\n    let ptr_fn', '    let output_fft_buffer_len_even = poly_size % 4 == 0;\n    let _ = output_fft_buffer_len_even;\n    #[cfg(vp_sym)]\n    let ptr_fn')
open(p, 'w').write(s)
