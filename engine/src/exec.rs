//! Symbolic interpreter for LLVM IR modules.
use crate::fpoly::*;
use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use rustc_hash::{FxMap, FxSet};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(T),
    F(u32),
    W(Rc<u128>),
    /// 128-bit integer with symbolic words (low, high)
    D(Rc<(T, T)>),
    A(Rc<Vec<Val>>),
    U,
}

#[derive(Debug)]
pub enum Stop {
    /// path finished normally
    Done,
    /// the code panicked where the harness said it must
    ExpectedPanic,
    Infeasible,
    Violation(String),
    /// engine limitation: the check gives no verdict
    Error(String),
}
pub type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

const GLOB_BASE: u64 = 0x10000;
const GLOB_END: u64 = 0x0400_0000;
const HEAP_BASE: u64 = GLOB_END;
const HEAP_END: u64 = 0x5000_0000;
const STACK_BASE: u64 = HEAP_END;
const MEM_SIZE: u64 = 0x5800_0000;
const FN_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone)]
enum Sh {
    N,
    W(u32),                             // whole word; top bit set: Fourier value
    B(Box<[Option<(T, u8)>; 8]>),
}
const FTAG: u32 = 0x8000_0000;

pub struct Mem {
    pub d: Vec<u8>,
    shadow: FxMap<u64, Box<[Sh; 512]>>,
    has: Vec<bool>,
    heap_top: u64,
    free: FxMap<(u64, u64), Vec<u64>>,
    live: FxMap<u64, (u64, u64)>,
    pub sp: u64,
}
impl Mem {
    fn new() -> Mem {
        Mem {
            d: vec![0u8; MEM_SIZE as usize],
            shadow: Default::default(),
            has: vec![false; (MEM_SIZE >> 12) as usize],
            heap_top: HEAP_BASE,
            free: Default::default(),
            live: Default::default(),
            sp: STACK_BASE,
        }
    }
    fn chk(&self, a: u64, n: u64) -> R<()> {
        if a < GLOB_BASE || a.saturating_add(n) > MEM_SIZE {
            return Err(Stop::Violation(format!("invalid memory access at address {a:#x} ({n} bytes)")));
        }
        Ok(())
    }
    fn dirty(&self, a: u64, n: u64) -> bool {
        let (p, q) = (a >> 12, (a + n.max(1) - 1) >> 12);
        (p..=q).any(|x| self.has[x as usize])
    }
    fn clear_shadow(&mut self, a: u64, n: u64) {
        if n == 0 || !self.dirty(a, n) {
            return;
        }
        let (mut x, end) = (a, a + n);
        while x < end {
            if !self.has[(x >> 12) as usize] {
                x = ((x >> 12) + 1) << 12;
                continue;
            }
            let pg = self.shadow.get_mut(&(x >> 12)).unwrap();
            let wi = ((x & 0xfff) >> 3) as usize;
            let w0 = x & !7;
            let (s, e) = (x - w0, (end - w0).min(8));
            match &mut pg[wi] {
                Sh::N => {}
                sh => {
                    if s == 0 && e == 8 {
                        *sh = Sh::N;
                    } else {
                        let mut b = match std::mem::replace(sh, Sh::N) {
                            Sh::B(b) => b,
                            Sh::W(t) => {
                                let mut b = Box::new([None; 8]);
                                for i in 0..8 {
                                    b[i] = Some((t, i as u8));
                                }
                                b
                            }
                            Sh::N => unreachable!(),
                        };
                        for i in s..e {
                            b[i as usize] = None;
                        }
                        if b.iter().any(|z| z.is_some()) {
                            *sh = Sh::B(b);
                        }
                    }
                }
            }
            x = w0 + 8;
        }
    }
    fn page(&mut self, p: u64) -> &mut Box<[Sh; 512]> {
        self.has[p as usize] = true;
        self.shadow.entry(p).or_insert_with(|| Box::new(std::array::from_fn(|_| Sh::N)))
    }
    fn sh(&self, a: u64) -> Option<(u32, u8)> {
        if !self.has[(a >> 12) as usize] {
            return None;
        }
        match &self.shadow[&(a >> 12)][((a & 0xfff) >> 3) as usize] {
            Sh::N => None,
            Sh::W(t) => Some((*t, (a & 7) as u8)),
            Sh::B(b) => b[(a & 7) as usize],
        }
    }
    fn set_sh(&mut self, a: u64, t: T, idx: u8) {
        let pg = self.page(a >> 12);
        let sh = &mut pg[((a & 0xfff) >> 3) as usize];
        let mut b = match std::mem::replace(sh, Sh::N) {
            Sh::B(b) => b,
            Sh::W(t) => {
                let mut b = Box::new([None; 8]);
                for i in 0..8 {
                    b[i] = Some((t, i as u8));
                }
                b
            }
            Sh::N => Box::new([None; 8]),
        };
        b[(a & 7) as usize] = Some((t, idx));
        *sh = Sh::B(b);
    }
    fn set_word(&mut self, a: u64, t: u32) {
        let pg = self.page(a >> 12);
        pg[((a & 0xfff) >> 3) as usize] = Sh::W(t);
    }
    pub fn rd(&self, a: u64, n: u64) -> R<u64> {
        self.chk(a, n)?;
        let a = a as usize;
        Ok(match n {
            8 => u64::from_le_bytes(self.d[a..a + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(self.d[a..a + 4].try_into().unwrap()) as u64,
            1 => self.d[a] as u64,
            2 => u16::from_le_bytes(self.d[a..a + 2].try_into().unwrap()) as u64,
            n => {
                let mut r = 0;
                for i in 0..n as usize {
                    r |= (self.d[a + i] as u64) << (8 * i);
                }
                r
            }
        })
    }
    fn wr(&mut self, a: u64, v: u64, n: u64) -> R<()> {
        self.chk(a, n)?;
        let p = a as usize;
        match n {
            8 => self.d[p..p + 8].copy_from_slice(&v.to_le_bytes()),
            1 => self.d[p] = v as u8,
            4 => self.d[p..p + 4].copy_from_slice(&(v as u32).to_le_bytes()),
            n => {
                for i in 0..n as usize {
                    self.d[p + i] = (v >> (8 * i)) as u8;
                }
            }
        }
        Ok(())
    }
    fn alloc(&mut self, size: u64, align: u64) -> R<u64> {
        let size = ((size.max(1) + 15) / 16) * 16;
        let align = align.max(16);
        if let Some(a) = self.free.get_mut(&(size, align)).and_then(|v| v.pop()) {
            self.live.insert(a, (size, align));
            return Ok(a);
        }
        let a = (self.heap_top + align - 1) / align * align;
        if a + size > HEAP_END {
            return err(format!("engine heap exhausted (request {size})"));
        }
        self.heap_top = a + size + 16;
        self.live.insert(a, (size, align));
        Ok(a)
    }
    fn dealloc(&mut self, a: u64) -> R<()> {
        match self.live.remove(&a) {
            Some((s, al)) => {
                self.clear_shadow(a, s);
                self.free.entry((s, al)).or_default().push(a);
                Ok(())
            }
            None => Err(Stop::Violation(format!("invalid free of {a:#x}"))),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        if !self.dirty(s, n) {
            self.clear_shadow(d, n);
            self.d.copy_within(s as usize..(s + n) as usize, d as usize);
            return Ok(());
        }
        // collect source shadow first (overlap safe)
        let mut words: Vec<(u64, u32)> = vec![];
        let mut bytes: Vec<(u64, T, u8)> = vec![];
        let aligned = (d & 7) == (s & 7);
        let mut i = 0;
        while i < n {
            let a = s + i;
            if !self.has[(a >> 12) as usize] {
                let nx = ((a >> 12) + 1) << 12;
                i = nx - s;
                continue;
            }
            if aligned && a & 7 == 0 && i + 8 <= n {
                match &self.shadow[&(a >> 12)][((a & 0xfff) >> 3) as usize] {
                    Sh::N => {}
                    Sh::W(t) => words.push((i, *t)),
                    Sh::B(b) => {
                        for k in 0..8 {
                            if let Some((t, x)) = b[k] {
                                bytes.push((i + k as u64, t, x));
                            }
                        }
                    }
                }
                i += 8;
            } else {
                if let Some((t, x)) = self.sh(a) {
                    bytes.push((i, t, x));
                }
                i += 1;
            }
        }
        self.clear_shadow(d, n);
        self.d.copy_within(s as usize..(s + n) as usize, d as usize);
        for (i, t) in words {
            self.set_word(d + i, t);
        }
        for (i, t, x) in bytes {
            self.set_sh(d + i, t, x);
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> R<Vec<u8>> {
        self.chk(a, n)?;
        Ok(self.d[a as usize..(a + n) as usize].to_vec())
    }
    pub fn str(&self, a: u64, n: u64) -> String {
        match self.bytes(a, n) {
            Ok(b) => String::from_utf8_lossy(&b).to_string(),
            _ => "?".into(),
        }
    }
}

struct Frame {
    f: Rc<Func>,
    base: usize,
    blk: u32,
    prev: u32,
    ip: usize,
    sp: u64,
    dst: Option<u32>,
}

pub type IFn = fn(&mut Exec, &[Val], &str) -> R<Option<Val>>;

#[derive(Clone, Copy)]
enum Target {
    Func(u32),
    Intr(u32),
}

/// How a draw of the random generator is modelled (part of the replayable input).
#[derive(Clone, Debug)]
pub struct Draw {
    pub seed: (u64, u64),
    pub pos: u64,
    pub kind: u32, // 0 uniform 1 binary 2 ternary 3 gaussian
    pub n: u32,
    pub val: Val,
    pub std: u64,
    pub ord: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub expected_panics: u64,
    pub infeasible: u64,
    pub instr: u64,
    pub branches_sym: u64,
    pub asserts: u64,
    pub closed_rewrite: u64,
    pub closed_smt: u64,
    pub max_monos: u64,
    pub atoms: u64,
    pub secs: f64,
    pub reach: BTreeMap<String, u64>,
}

pub struct Cex {
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, String)>, // lines of the replay file
}

pub struct Cfg {
    pub map: HashMap<u64, u64>,
}
pub const CFG_GRAN: u64 = 1; // uniform masks are multiples of 2^(64-g)
pub const CFG_NOISE: u64 = 2; // 0: zero noise; e>0: |noise| < 2^e
pub const CFG_THREADS: u64 = 3;
pub const CFG_SCHED: u64 = 4; // number of free scheduling choices; then the default below
pub const CFG_SCHED_DEF: u64 = 5;
pub const CFG_SCHED_DEV: u64 = 15; // number of further decisions, anywhere, that may differ from the default
pub const CFG_PREEMPT: u64 = 14; // number of preemptions at lock operations
pub const CFG_PERM: u64 = 6; // number of free index draws; then identity
pub const CFG_EXPECT_PANIC: u64 = 7;
pub const CFG_OBLIVIOUS: u64 = 8;
/// ciphertext coefficients with more monomials than this are abstracted (0: never)
pub const CFG_PERM_SYM: u64 = 13;
pub const CFG_CUT: u64 = 12;
pub const CFG_MODEL_DECOMP: u64 = 9; // 1 (default): digit/closest hooks active
pub const CFG_KEYBITS: u64 = 10; // number of binary draws kept symbolic (then alternating constants); default all
pub const CFG_PLAIN: u64 = 16; // set while a plaintext is drawn
pub const CFG_MASKS: u64 = 11; // 0 = symbolic (default), 1 = zero masks, 2 = fixed pseudo-random masks

pub struct Exec {
    pub cnt: u64,
    pub mods: Vec<Module>,
    gsym: HashMap<&'static str, usize>,
    ggsym: HashMap<&'static str, usize>,
    funcs: Vec<Option<Rc<Func>>>,
    fid: HashMap<(usize, String), u32>,
    fname: Vec<(usize, String)>,
    /// hashing of a machine word: the key is made concrete first
    prehash: Vec<bool>,
    /// lock operations, before which another task may run
    lockhook: Vec<bool>,
    npreempt: u64,
    ndev: u64,
    pub preempted: u64,
    intr: Vec<(IFn, Rc<str>)>,
    intr_map: HashMap<String, Option<u32>>,
    gaddr: HashMap<(usize, String), u64>,
    ginit: Vec<(u64, Vec<u8>)>,
    gtop: u64,
    targets: Vec<Target>,

    pub mem: Mem,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    pub ts: Terms,
    pub ft: FTab,
    pub smt: Smt,
    pub cfg: HashMap<u64, u64>,
    pub pc: Vec<T>,
    known: FxMap<AtomId, u64>,
    pub trace: Vec<u64>,
    prefix: Vec<u64>,
    pub pending: Vec<Vec<u64>>,
    witness: Option<HashMap<u32, u64>>,
    incomplete: Option<String>,
    pub draws: Vec<Draw>,
    drawmap: HashMap<(u64, u64, u64, u32), usize>,
    pub inputs: Vec<(String, Val)>,
    pub choices: Vec<(String, u64)>,
    nperm: u64,
    nsched: u64,
    nentropy: u64,
    nbin: u64,
    /// last inverse transform (address, size) and the secret key the cuts are relative to
    pub last_bwd: (u64, u64),
    pub cut_key: Vec<T>,
    pub stats: Stats,
    pub covered: FxSet<u32>,
    pub deadline: Instant,
    rng: u64,
    pub soft_violations: Vec<Cex>,
    pub log: Vec<(u64, u64)>,
    pub tracing: bool,
    pub concrete: Option<HashMap<String, u64>>,
    pub out: Vec<String>,
    pub max_instr: u64,
    pub worker: usize,
    pub replay_seed: Option<u64>,
    pub replay: Option<Replay>,
}
/// a recorded counterexample, interpreted concretely
#[derive(Default)]
pub struct Replay {
    pub inputs: Vec<u64>,
    pub choices: Vec<u64>,
    pub draws: HashMap<(u64, u64, u64, u32), u64>,
}

enum Flow {
    Next,
    Jump,
}

impl Exec {
    pub fn new(paths: &[String], timeout_ms: u64) -> Exec {
        let mods: Vec<Module> = paths.iter().map(|p| Module::load(p)).collect();
        let mut gsym = HashMap::new();
        let mut ggsym = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for k in m.funcs.keys() {
                if !m.local.contains(k) {
                    gsym.entry(*k).or_insert(i);
                }
            }
            for k in m.aliases.keys() {
                gsym.entry(*k).or_insert(i);
            }
            for (k, v) in m.globals.iter() {
                if !m.local.contains(k) && !v.starts_with("external") && !v.starts_with("extern_weak") {
                    ggsym.entry(*k).or_insert(i);
                }
            }
        }
        Exec {
            cnt: 0,
            mods,
            gsym,
            ggsym,
            funcs: vec![],
            fid: HashMap::new(),
            fname: vec![],
            prehash: vec![],
            lockhook: vec![],
            npreempt: 0,
            ndev: 0,
            preempted: 0,
            intr: vec![],
            intr_map: HashMap::new(),
            gaddr: HashMap::new(),
            ginit: vec![],
            gtop: GLOB_BASE,
            targets: vec![],
            mem: Mem::new(),
            regs: vec![],
            frames: vec![],
            ts: Terms::new(),
            ft: FTab::new(),
            smt: Smt::new(timeout_ms),
            cfg: HashMap::new(),
            pc: vec![],
            known: Default::default(),
            trace: vec![],
            prefix: vec![],
            pending: vec![],
            witness: None,
            incomplete: None,
            draws: vec![],
            drawmap: HashMap::new(),
            inputs: vec![],
            choices: vec![],
            nperm: 0,
            nsched: 0,
            nentropy: 0,
            nbin: 0,
            last_bwd: (0, 0),
            cut_key: vec![],
            stats: Default::default(),
            covered: Default::default(),
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            rng: 0x9E3779B97F4A7C15,
            soft_violations: vec![],
            log: vec![],
            tracing: false,
            concrete: None,
            out: vec![],
            max_instr: 4_000_000_000,
            worker: 0,
            replay_seed: None,
            replay: None,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn reset_path(&mut self, prefix: Vec<u64>) {
        self.mem = Mem::new();
        for (a, b) in &self.ginit {
            self.mem.d[*a as usize..*a as usize + b.len()].copy_from_slice(b);
        }
        self.regs.clear();
        self.frames.clear();
        self.ts = Terms::new();
        self.ts.worker = self.worker;
        self.ft = FTab::new();
        self.smt.reset();
        self.cfg.clear();
        self.pc.clear();
        self.known.clear();
        self.trace.clear();
        self.prefix = prefix;
        self.witness = Some(HashMap::new());
        self.incomplete = None;
        self.draws.clear();
        self.drawmap.clear();
        self.inputs.clear();
        self.choices.clear();
        self.nperm = 0;
        self.nsched = 0;
        self.npreempt = 0;
        self.ndev = 0;
        self.preempted = 0;
        self.nentropy = 0;
        self.nbin = 0;
        self.last_bwd = (0, 0);
        self.cut_key.clear();
        self.log.clear();
        self.out.clear();
        self.rng = self.replay_seed.unwrap_or(0x9E3779B97F4A7C15);
    }
    pub fn cfgv(&self, k: u64, d: u64) -> u64 {
        *self.cfg.get(&k).unwrap_or(&d)
    }

    // ------------------------------------------------------------ symbols
    fn func_id(&mut self, m: usize, name: &str) -> u32 {
        if let Some(i) = self.fid.get(&(m, name.to_string())) {
            return *i;
        }
        let i = self.fname.len() as u32;
        self.prehash.push(name.contains("4core4hash5impls") && name.contains("$GT$4hash") && (name.contains("usize") || name.contains("u64")));
        let r = name.strip_prefix("_ZN3std3sys4sync").unwrap_or("");
        self.lockhook.push(
            r.starts_with("5mutex5futex5Mutex") && (r[18..].starts_with("4lock17h") || r[18..].starts_with("8try_lock17h"))
                || r.starts_with("6rwlock5futex6RwLock") && ["4read17h", "5write17h", "8try_read17h", "9try_write17h"].iter().any(|k| r[20..].starts_with(k)),
        );
        self.fname.push((m, name.to_string()));
        self.funcs.push(None);
        self.fid.insert((m, name.to_string()), i);
        i
    }
    fn find_func(&self, m: usize, name: &str) -> Option<(usize, String)> {
        if self.mods[m].funcs.contains_key(name) {
            return Some((m, name.to_string()));
        }
        if let Some(a) = self.mods[m].aliases.get(name) {
            return self.find_func(m, a);
        }
        if let Some(i) = self.gsym.get(name) {
            if let Some(a) = self.mods[*i].aliases.get(name) {
                return self.find_func(*i, a);
            }
            return Some((*i, name.to_string()));
        }
        None
    }
    fn target(&mut self, m: usize, name: &str) -> R<Target> {
        if let Some(Some(i)) = self.intr_map.get(name) {
            return Ok(Target::Intr(*i));
        }
        if let Some(f) = crate::intrin::lookup(name) {
            let i = self.intr.len() as u32;
            self.intr.push((f, name.into()));
            self.intr_map.insert(name.to_string(), Some(i));
            return Ok(Target::Intr(i));
        }
        match self.find_func(m, name) {
            Some((m, n)) => Ok(Target::Func(self.func_id(m, &n))),
            None => {
                let i = self.intr.len() as u32;
                self.intr.push((crate::intrin::missing, name.into()));
                self.intr_map.insert(name.to_string(), Some(i));
                Ok(Target::Intr(i))
            }
        }
    }
    fn get_func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize] {
            return f.clone();
        }
        let (m, n) = self.fname[id as usize].clone();
        let mut f = self.mods[m].parse_func(m, &n);
        let mut blocks = std::mem::take(&mut f.blocks);
        for b in blocks.iter_mut() {
            for (_, _, inc) in b.phis.iter_mut() {
                for (o, _) in inc.iter_mut() {
                    self.resolve(m, o);
                }
            }
            for i in b.ins.iter_mut() {
                self.resolve_ins(m, i);
            }
        }
        f.blocks = blocks;
        let f = Rc::new(f);
        self.funcs[id as usize] = Some(f.clone());
        f
    }
    fn resolve(&mut self, m: usize, o: &mut Opd) {
        if let Opd::C(c, t) = o {
            let v = self.cval(m, c, t);
            *o = Opd::V(v);
        }
    }
    fn resolve_ins(&mut self, m: usize, i: &mut Ins) {
        match i {
            Ins::Load(_, _, a) | Ins::FNeg(_, _, a) | Ins::Cast(_, _, _, _, a) | Ins::Extract(_, a, _) | Ins::Freeze(_, a) => self.resolve(m, a),
            Ins::Store(_, a, b) | Ins::Bin(_, _, _, a, b) | Ins::Cmp(_, _, _, a, b) | Ins::FCmp(_, _, _, a, b) => {
                self.resolve(m, a);
                self.resolve(m, b);
            }
            Ins::Gep(_, a, _, ops) => {
                self.resolve(m, a);
                for o in ops {
                    self.resolve(m, o);
                }
            }
            Ins::Select(_, _, a, b, c, _) => {
                self.resolve(m, a);
                self.resolve(m, b);
                self.resolve(m, c);
            }
            Ins::Call { callee, name, args, cache, .. } => {
                for (_, a) in args {
                    self.resolve(m, a);
                }
                if let Some(n) = name {
                    let n = n.clone();
                    if let Ok(t) = self.target(m, &n) {
                        cache.set(self.targets.len() as u32);
                        self.targets.push(t);
                    }
                } else {
                    self.resolve(m, callee);
                }
            }
            Ins::Insert(_, _, a, b, _) | Ins::ExtractElt(_, a, b) | Ins::Shuffle(_, _, a, b, _) | Ins::Rmw(_, _, _, a, b) => {
                self.resolve(m, a);
                self.resolve(m, b);
            }
            Ins::InsertElt(_, _, a, b, c) | Ins::CmpXchg(_, _, a, b, c) => {
                self.resolve(m, a);
                self.resolve(m, b);
                self.resolve(m, c);
            }
            Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => self.resolve(m, a),
            Ins::Ret(Some((_, a))) => self.resolve(m, a),
            _ => {}
        }
    }
    fn fn_addr(&mut self, m: usize, name: &str) -> Option<u64> {
        match self.target(m, name).ok()? {
            Target::Func(i) => Some(FN_BASE + (i as u64) * 16),
            Target::Intr(i) => Some(FN_BASE + 0x100_0000_0000 + (i as u64) * 16),
        }
    }
    pub fn sym_addr(&mut self, m: usize, name: &str) -> u64 {
        // data?
        let owner = if self.mods[m].globals.contains_key(name)
            && (self.mods[m].local.contains(name) || !self.ggsym.contains_key(name))
        {
            Some(m)
        } else {
            self.ggsym.get(name).copied()
        };
        if let Some(o) = owner {
            if !self.mods[o].globals[name].starts_with("external") || !self.is_func(m, name) {
                return self.global_addr(o, name);
            }
        }
        self.fn_addr(m, name).unwrap_or(0)
    }
    /// the addresses of the globals whose symbol starts so (one per version of the crate that is present)
    pub fn find_globals(&mut self, prefix: &str) -> Vec<u64> {
        let l: Vec<(usize, String)> = (0..self.mods.len())
            .flat_map(|m| self.mods[m].globals.iter().filter(|(k, v)| k.starts_with(prefix) && !v.starts_with("external")).map(move |(k, _)| (m, k.to_string())))
            .collect();
        l.into_iter().map(|(m, n)| self.global_addr(m, &n)).collect()
    }
    fn is_func(&self, m: usize, name: &str) -> bool {
        self.find_func(m, name).is_some()
    }
    fn global_addr(&mut self, m: usize, name: &str) -> u64 {
        if let Some(a) = self.gaddr.get(&(m, name.to_string())) {
            return *a;
        }
        let (ty, align, init) = self.mods[m].parse_global(name);
        let align = align.max(16);
        let size = ty.size().max(8);
        let a = (self.gtop + align - 1) / align * align;
        self.gtop = a + size + 16;
        assert!(self.gtop < GLOB_END, "globals region exhausted");
        self.gaddr.insert((m, name.to_string()), a);
        if let Some(c) = init {
            let mut buf = vec![0u8; ty.size() as usize];
            self.fill_const(m, &c, &ty, &mut buf, 0);
            self.mem.d[a as usize..a as usize + buf.len()].copy_from_slice(&buf);
            self.ginit.push((a, buf));
        }
        a
    }
    fn fill_const(&mut self, m: usize, c: &Cst, ty: &Ty, buf: &mut [u8], off: usize) {
        match c {
            Cst::Undef | Cst::Zero => {}
            Cst::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let o = ty.field_off(i) as usize;
                    self.fill_const(m, k, t, buf, off + o);
                }
            }
            _ => {
                let v = self.cval(m, c, ty);
                let n = ty.size() as usize;
                let x = match v {
                    Val::I(x) => x as u128,
                    Val::W(x) => *x,
                    _ => 0,
                };
                buf[off..off + n.min(16)].copy_from_slice(&x.to_le_bytes()[..n.min(16)]);
            }
        }
    }
    fn cval(&mut self, m: usize, c: &Cst, ty: &Ty) -> Val {
        match c {
            Cst::Int(v) => {
                if ty.bits() > 64 {
                    Val::W(Rc::new(*v))
                } else {
                    Val::I(*v as u64)
                }
            }
            Cst::Undef | Cst::Zero => self.zero(ty),
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
            Cst::Agg(v) => {
                let w: Vec<Val> = v.iter().map(|(t, k)| self.cval(m, k, t)).collect();
                Val::A(Rc::new(w))
            }
            Cst::Sym(n) => Val::I(self.sym_addr(m, n)),
            Cst::Gep(t, b, idx) => {
                let base = match self.cval(m, b, &Ty::Ptr) {
                    Val::I(x) => x,
                    _ => 0,
                };
                let mut a = base as i64;
                let mut t = t.clone();
                for (i, k) in idx.iter().enumerate() {
                    if i == 0 {
                        a += k * t.size() as i64;
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                a += t.field_off(*k as usize) as i64;
                                t = t.elem(*k as usize);
                            }
                            _ => {
                                let e = t.elem(0);
                                a += k * e.size() as i64;
                                t = e;
                            }
                        }
                    }
                }
                Val::I(a as u64)
            }
            Cst::Cast(b) => self.cval(m, b, &Ty::Ptr),
            Cst::Bin(o, a, b) => {
                let (x, y) = match (self.cval(m, a, &Ty::Int(64)), self.cval(m, b, &Ty::Int(64))) {
                    (Val::I(x), Val::I(y)) => (x, y),
                    _ => (0, 0),
                };
                Val::I(match o {
                    0 => x.wrapping_add(y),
                    1 => x.wrapping_sub(y),
                    _ => x ^ y,
                })
            }
        }
    }
    pub fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(n) if *n > 64 => Val::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Val::I(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Val::U,
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn v(&self, base: usize, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.regs[base + *r as usize].clone(),
            Opd::V(v) => v.clone(),
            Opd::C(..) => unreachable!(),
        }
    }
    pub fn to_t(&mut self, v: &Val, w: u32) -> R<T> {
        match v {
            Val::I(x) => Ok(self.ts.k(w as u8, *x)),
            Val::S(t) => {
                debug_assert_eq!(self.ts.w(*t) as u32, w);
                Ok(*t)
            }
            Val::U => Ok(self.ts.k(w as u8, 0)),
            Val::F(_) => err("Fourier-domain value used as an integer"),
            _ => err("wide or aggregate value used as an integer"),
        }
    }
    pub fn of_t(&self, t: T) -> Val {
        match self.ts.as_const(t) {
            Some(c) => Val::I(c),
            None => Val::S(t),
        }
    }
    pub fn int(&mut self, v: &Val, what: &str) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(t) => self.concretise(*t, what),
            Val::U => Ok(0),
            _ => err(format!("concrete integer expected ({what}): {v:?}")),
        }
    }
    pub fn load(&mut self, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(n) if *n > 64 => {
                let nb = (*n as u64 + 7) / 8;
                self.mem.chk(a, nb)?;
                if self.mem.dirty(a, nb) && (0..nb).any(|i| self.mem.sh(a + i).is_some()) {
                    if *n != 128 {
                        return err("symbolic load wider than 64 bits");
                    }
                    let (l, h) = (self.load_n(a, 8, 64)?, self.load_n(a + 8, 8, 64)?);
                    let d = (self.to_t(&l, 64)?, self.to_t(&h, 64)?);
                    return Ok(self.of_d(d));
                }
                let mut x = 0u128;
                for i in 0..nb {
                    x |= (self.mem.d[(a + i) as usize] as u128) << (8 * i);
                }
                Ok(Val::W(Rc::new(x)))
            }
            Ty::Int(n) => {
                let nb = (*n as u64 + 7) / 8;
                self.load_n(a, nb, *n)
            }
            Ty::Ptr | Ty::F64 => self.load_n(a, 8, 64),
            Ty::F32 => self.load_n(a, 4, 32),
            Ty::Arr(n, t) => {
                let es = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(a + i * es, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                if **t == Ty::Int(1) {
                    return err("load of <n x i1>");
                }
                let es = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load(a + i * es, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    v.push(self.load(a + ty.field_off(i), &f[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err(format!("load of {ty:?}")),
        }
    }
    #[inline]
    pub fn load_n(&mut self, a: u64, nb: u64, bits: u32) -> R<Val> {
        self.mem.chk(a, nb)?;
        if !self.mem.dirty(a, nb) {
            let x = self.mem.rd(a, nb)?;
            return Ok(Val::I(if bits < 64 { x & ((1u64 << bits) - 1) } else { x }));
        }
        if nb == 8 && a & 7 == 0 {
            match &self.mem.shadow.get(&(a >> 12)).map(|p| p[((a & 0xfff) >> 3) as usize].clone()) {
                None | Some(Sh::N) => return Ok(Val::I(self.mem.rd(a, 8)?)),
                Some(Sh::W(t)) => return Ok(if t & FTAG != 0 { Val::F(t & !FTAG) } else { Val::S(*t) }),
                _ => {}
            }
        }
        let sh: Vec<Option<(u32, u8)>> = (0..nb).map(|i| self.mem.sh(a + i)).collect();
        if sh.iter().all(|x| x.is_none()) {
            let x = self.mem.rd(a, nb)?;
            return Ok(Val::I(if bits < 64 { x & ((1u64 << bits) - 1) } else { x }));
        }
        // group into runs of consecutive bytes of one term
        let w = (nb * 8) as u8;
        let mut acc = self.ts.k(w, 0);
        let mut i = 0usize;
        while i < nb as usize {
            match sh[i] {
                None => {
                    let x = self.mem.d[a as usize + i] as u64;
                    let k = self.ts.k(w, x << (8 * i));
                    acc = self.ts.add(acc, k);
                    i += 1;
                }
                Some((t, x)) => {
                    if t & FTAG != 0 {
                        let whole = nb == 8 && (0..8).all(|k| sh[k] == Some((t, k as u8)));
                        if whole {
                            return Ok(Val::F(t & !FTAG));
                        }
                        return err("partial access to a Fourier-domain value");
                    }
                    let mut j = i + 1;
                    while j < nb as usize && sh[j] == Some((t, x + (j - i) as u8)) {
                        j += 1;
                    }
                    let tw = self.ts.w(t);
                    let len = (j - i) as u32;
                    let mut p = t;
                    if x > 0 {
                        p = self.ts.lshr(p, 8 * x as u32);
                    }
                    if (len * 8) < tw as u32 {
                        p = self.ts.trunc(p, (len * 8) as u8);
                    }
                    let p = if self.ts.w(p) < w {
                        self.ts.zext(p, w)
                    } else {
                        p
                    };
                    let p = self.ts.shl(p, 8 * i as u32);
                    acc = self.ts.add(acc, p);
                    i = j;
                }
            }
        }
        let r = if bits < w as u32 { self.ts.trunc(acc, bits as u8) } else { acc };
        Ok(self.of_t(r))
    }
    pub fn store(&mut self, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::I(x) => {
                let nb = match ty {
                    Ty::Int(n) => (*n as u64 + 7) / 8,
                    Ty::Ptr | Ty::F64 => 8,
                    Ty::F32 => 4,
                    _ => return err(format!("store scalar as {ty:?}")),
                };
                self.mem.wr(a, *x, nb)?;
                self.mem.clear_shadow(a, nb);
                Ok(())
            }
            Val::S(t) => {
                let (w, nb) = match ty {
                    Ty::Int(n) => (*n, (*n as u64 + 7) / 8),
                    Ty::Ptr => (64, 8),
                    _ => return err(format!("store symbolic as {ty:?}")),
                };
                let _ = w;
                self.mem.chk(a, nb)?;
                let t = if (self.ts.w(*t) as u64) < nb * 8 { self.ts.zext(*t, (nb * 8) as u8) } else { *t };
                if let Some(c) = self.ts.as_const(t) {
                    return self.store(a, ty, &Val::I(c));
                }
                if nb == 8 && a & 7 == 0 {
                    self.mem.set_word(a, t);
                } else {
                    for i in 0..nb {
                        self.mem.set_sh(a + i, t, i as u8);
                    }
                }
                Ok(())
            }
            Val::F(f) => {
                self.mem.chk(a, 8)?;
                if a & 7 != 0 {
                    return err("unaligned Fourier store");
                }
                self.mem.set_word(a, f | FTAG);
                Ok(())
            }
            Val::D(p) => {
                let (l, h) = (self.of_t(p.0), self.of_t(p.1));
                self.store(a, &Ty::Int(64), &l)?;
                self.store(a + 8, &Ty::Int(64), &h)
            }
            Val::W(x) => {
                let nb = match ty {
                    Ty::Int(n) => (*n as u64 + 7) / 8,
                    _ => return err("wide store"),
                };
                self.mem.chk(a, nb)?;
                for i in 0..nb {
                    self.mem.d[(a + i) as usize] = (**x >> (8 * i)) as u8;
                }
                self.mem.clear_shadow(a, nb);
                Ok(())
            }
            Val::A(vs) => {
                for i in 0..vs.len() {
                    let (o, t) = (ty.field_off(i), ty.elem(i));
                    self.store(a + o, &t, &vs[i])?;
                }
                Ok(())
            }
            Val::U => Ok(()),
        }
    }

    // ------------------------------------------------------------ solver interaction
    pub fn stack(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for f in self.frames.iter().rev() {
            let p = f.f.pretty.clone();
            if v.last() != Some(&p) {
                v.push(p);
            }
        }
        v
    }
    fn eval_with(&self, asg: &HashMap<u32, u64>, ts: &[T]) -> Vec<u64> {
        let f = |i: u32| *asg.get(&i).unwrap_or(&self.ts.vars[i as usize].lo);
        let mut e = Eval::new(&self.ts, &f);
        ts.iter().map(|t| e.term(*t)).collect()
    }
    fn random_asg(&mut self, style: u64) -> HashMap<u32, u64> {
        let mut m = HashMap::new();
        for i in 0..self.ts.vars.len() {
            let (lo, hi) = (self.ts.vars[i].lo, self.ts.vars[i].hi);
            let r = self.rand();
            let span = hi.wrapping_sub(lo).wrapping_add(1);
            let x = if span == 0 { r } else { lo + r % span };
            let s = self.rand() % 8;
            let x = match (style, s) {
                (1, 0..=3) => lo,
                (1, 4) => hi,
                (2, 0) => lo,
                (2, 1) => hi,
                (2, 2) if hi > lo => lo + 1,
                (3, _) => {
                    let k = self.rand() % 64;
                    let z = r >> k;
                    if z >= lo && z <= hi {
                        z
                    } else {
                        x
                    }
                }
                _ => x,
            };
            m.insert(i as u32, x);
        }
        m
    }
    /// find an assignment making all terms 1 by evaluation only
    fn try_random(&mut self, conj: &[T], tries: u64) -> Option<HashMap<u32, u64>> {
        if let Some(w) = self.witness.clone() {
            if self.eval_with(&w, conj).iter().all(|x| *x == 1) {
                return Some(w);
            }
        }
        for k in 0..tries {
            let m = self.random_asg(k % 4);
            if self.eval_with(&m, conj).iter().all(|x| *x == 1) {
                return Some(m);
            }
        }
        None
    }
    /// satisfiability of PC and extra
    fn sat_with(&mut self, extra: &[T]) -> R<(Sat, Option<HashMap<u32, u64>>)> {
        let mut c = self.pc.clone();
        for e in extra {
            let e = self.ts.subst_known(*e, &self.known);
            match self.ts.as_const(e) {
                Some(1) => {}
                Some(_) => return Ok((Sat::Unsat, None)),
                None => c.push(e),
            }
        }
        if let Some(m) = self.try_random(&c, 6) {
            return Ok((Sat::Sat, Some(m)));
        }
        if Instant::now() > self.deadline || ABORT[self.worker].load(std::sync::atomic::Ordering::Relaxed) != 0 {
            return err("given up: out of time or memory");
        }
        let (s, vals) = self.smt.check(&self.ts, &c);
        match s {
            Sat::Sat => {
                let mut m: HashMap<u32, u64> = HashMap::new();
                for (v, x) in vals {
                    m.insert(v, x);
                }
                // the model must evaluate to true in our own semantics as well
                if !self.eval_with(&m, &c).iter().all(|x| *x == 1) {
                    return err("internal: solver model does not satisfy the term semantics");
                }
                Ok((Sat::Sat, Some(m)))
            }
            x => Ok((x, None)),
        }
    }
    fn add_pc(&mut self, c: T) {
        let c = self.ts.subst_known(c, &self.known);
        if self.ts.as_const(c) == Some(1) {
            return;
        }
        self.pc.push(c);
        // record directly implied boolean atoms
        let p = self.ts.terms[c as usize].p.clone();
        let set = |me: &mut Self, a: AtomId, v: u64| {
            let at = &me.ts.atoms[a as usize];
            if at.lo >= 0 && at.hi <= 1 {
                me.known.insert(a, v);
            }
        };
        if p.len() == 1 {
            for a in self.ts.monos[p[0].0 as usize].atoms.clone().iter() {
                set(self, *a, 1);
            }
        } else if p.len() == 2 && p[0].0 == 0 {
            let at = self.ts.monos[p[1].0 as usize].atoms.clone();
            if at.len() == 1 {
                set(self, at[0], 0);
            }
        }
    }
    fn oblivious_check(&mut self, what: &str) -> R<()> {
        if self.cfgv(CFG_OBLIVIOUS, 0) != 0 {
            return Err(Stop::Violation(format!("secret-dependent {what}")));
        }
        Ok(())
    }
    pub fn branch(&mut self, c: T) -> R<bool> {
        let c = self.ts.subst_known(c, &self.known);
        if let Some(k) = self.ts.as_const(c) {
            return Ok(k == 1);
        }
        self.stats.branches_sym += 1;
        if self.tracing {
            eprintln!("[branch] {} in {:?}", self.ts.show(c, 6), self.stack().iter().take(4).collect::<Vec<_>>());
        }
        self.oblivious_check("branch")?;
        let pos = self.trace.len();
        if pos < self.prefix.len() {
            let b = self.prefix[pos] & 1;
            self.trace.push(self.prefix[pos]);
            let cc = if b == 1 { c } else { self.ts.not1(c) };
            self.add_pc(cc);
            if let Some(w) = &self.witness {
                let w = w.clone();
                if self.eval_with(&w, &[cc])[0] != 1 {
                    self.witness = None;
                }
            }
            return Ok(b == 1);
        }
        let nc = self.ts.not1(c);
        let (s1, m1) = self.sat_with(&[c])?;
        let (s0, m0) = self.sat_with(&[nc])?;
        match (s1, s0) {
            (Sat::Unsat, Sat::Unsat) => Err(Stop::Infeasible),
            (Sat::Unsat, _) => {
                self.trace.push(0);
                if m0.is_some() {
                    self.witness = m0;
                }
                self.add_pc(nc);
                Ok(false)
            }
            (_, Sat::Unsat) => {
                self.trace.push(1);
                if m1.is_some() {
                    self.witness = m1;
                }
                self.add_pc(c);
                Ok(true)
            }
            (Sat::Unknown, _) | (_, Sat::Unknown) => {
                // the side without an answer is tried harder by evaluation; when that fails the
                // other side is followed, and the path can only end in a violation or as
                // incomplete (an error), never as proven
                let (mut m1, mut m0) = (m1, m0);
                let mut pc = self.pc.clone();
                pc.push(0);
                if m1.is_none() {
                    *pc.last_mut().unwrap() = c;
                    m1 = self.try_random(&pc, 64);
                }
                if m0.is_none() {
                    *pc.last_mut().unwrap() = nc;
                    m0 = self.try_random(&pc, 64);
                }
                if m1.is_none() || m0.is_none() {
                    self.incomplete = Some(format!("solver gave no answer on a branch condition in {:?}", self.stack().first()));
                }
                if m1.is_none() && m0.is_none() {
                    return err(self.incomplete.clone().unwrap());
                }
                if m1.is_some() && m0.is_some() {
                    let mut alt = self.trace.clone();
                    alt.push(0);
                    self.pending.push(alt);
                }
                let b = m1.is_some();
                self.trace.push(b as u64);
                self.witness = if b { m1 } else { m0 };
                self.add_pc(if b { c } else { nc });
                Ok(b)
            }
            _ => {
                let mut alt = self.trace.clone();
                alt.push(0);
                self.pending.push(alt);
                self.trace.push(1);
                self.witness = m1;
                self.add_pc(c);
                Ok(true)
            }
        }
    }
    pub fn concretise(&mut self, t: T, what: &str) -> R<u64> {
        let t = self.ts.subst_known(t, &self.known);
        if let Some(c) = self.ts.as_const(t) {
            return Ok(c);
        }
        self.oblivious_check(&format!("value used as {what}"))?;
        if self.tracing {
            eprintln!("[concretise {what}] {} in {:?}", self.ts.show(t, 6), self.stack().iter().take(4).collect::<Vec<_>>());
        }
        let w = self.ts.w(t);
        let pos = self.trace.len();
        let eq = |me: &mut Self, v: u64| {
            let k = me.ts.k(w, v);
            let d = me.ts.sub(t, k);
            me.ts.is_zero(d)
        };
        if pos < self.prefix.len() {
            let v = self.prefix[pos];
            self.trace.push(v);
            let c = eq(self, v);
            self.add_pc(c);
            self.witness = None;
            return Ok(v);
        }
        // enumerate all values
        let mut vals: Vec<u64> = vec![];
        let mut excl: Vec<T> = vec![];
        let mut wit = None;
        loop {
            let (s, m) = self.sat_with(&excl)?;
            match s {
                Sat::Unsat => break,
                Sat::Unknown => return err(format!("solver gave no answer while enumerating {what}")),
                Sat::Sat => {
                    let m = m.unwrap();
                    let v = self.eval_with(&m, &[t])[0];
                    if wit.is_none() {
                        wit = Some(m);
                    }
                    vals.push(v);
                    if vals.len() > 64 {
                        return err(format!("more than 64 possible values for {what} in {:?}", self.stack().first()));
                    }
                    let e = eq(self, v);
                    excl.push(self.ts.not1(e));
                }
            }
        }
        if vals.is_empty() {
            return Err(Stop::Infeasible);
        }
        for v in &vals[1..] {
            let mut alt = self.trace.clone();
            alt.push(*v);
            self.pending.push(alt);
        }
        self.trace.push(vals[0]);
        self.witness = wit;
        let c = eq(self, vals[0]);
        self.add_pc(c);
        Ok(vals[0])
    }
    /// n-way external choice (all alternatives are explored)
    pub fn choose(&mut self, n: u64) -> R<u64> {
        if n == 0 {
            return err("choice among zero alternatives");
        }
        if n == 1 {
            return Ok(0);
        }
        if let Some(_) = &self.concrete {
            if let Some(r) = &self.replay {
                return match r.choices.get(self.choices.len()) {
                    Some(v) if *v < n => Ok(*v),
                    _ => Err(Stop::Infeasible),
                };
            }
            return Ok(self.rand() % n);
        }
        let pos = self.trace.len();
        if pos < self.prefix.len() {
            let v = self.prefix[pos];
            self.trace.push(v);
            return Ok(v);
        }
        for v in 1..n {
            let mut alt = self.trace.clone();
            alt.push(v);
            self.pending.push(alt);
        }
        self.trace.push(0);
        Ok(0)
    }
    pub fn assume(&mut self, c: T) -> R<()> {
        let c = self.ts.subst_known(c, &self.known);
        match self.ts.as_const(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Infeasible),
            None => {}
        }
        let (s, m) = self.sat_with(&[c])?;
        match s {
            Sat::Unsat => Err(Stop::Infeasible),
            Sat::Unknown => err("solver gave no answer on an assumption"),
            Sat::Sat => {
                self.witness = m;
                self.add_pc(c);
                Ok(())
            }
        }
    }
    /// The property: c holds for every value on this path.
    pub fn check(&mut self, c: T, msg: &str) -> R<()> {
        self.stats.asserts += 1;
        let c = self.ts.subst_known(c, &self.known);
        if let Some(k) = self.ts.as_const(c) {
            if k == 1 {
                self.stats.closed_rewrite += 1;
                return Ok(());
            }
            return self.violation(msg, None);
        }
        let nc = self.ts.not1(c);
        let mut conj = self.pc.clone();
        conj.push(nc);
        if let Some(m) = self.try_random(&conj, 24) {
            return self.violation(msg, Some(m));
        }
        let (s, m) = self.sat_with(&[nc])?;
        match s {
            Sat::Unsat => {
                self.stats.closed_smt += 1;
                Ok(())
            }
            Sat::Sat => self.violation(msg, m),
            Sat::Unknown => {
                if let Some(m) = self.try_random(&conj, 200) {
                    return self.violation(msg, Some(m));
                }
                err(format!("solver gave no answer on assertion {msg:?}: {}", self.ts.show(c, 4)))
            }
        }
    }
    /// as `check(c)`; a counterexample satisfies `pref` as well if one does
    pub fn check_pref(&mut self, c: T, pref: T, msg: &str) -> R<()> {
        let pref = self.ts.subst_known(pref, &self.known);
        let mut conj = self.pc.clone();
        conj.push(pref);
        if self.ts.as_const(pref).is_none() {
            if let Some(m) = self.try_random(&conj, 64) {
                self.stats.asserts += 1;
                return self.violation(msg, Some(m));
            }
        }
        let r = self.check(c, msg);
        if let (Err(Stop::Violation(_)), None) = (&r, self.ts.as_const(pref)) {
            if let Ok((Sat::Sat, Some(m))) = self.sat_with(&[pref]) {
                self.witness = Some(m);
            }
        }
        r
    }
    pub fn violation(&mut self, msg: &str, m: Option<HashMap<u32, u64>>) -> R<()> {
        if let Some(m) = m {
            self.witness = Some(m);
        }
        Err(Stop::Violation(msg.to_string()))
    }
    /// build the replay file for the current path and witness
    pub fn cex(&mut self, msg: &str) -> R<Cex> {
        let w = match &self.witness {
            Some(w) => w.clone(),
            None => {
                let (s, m) = self.sat_with(&[])?;
                match s {
                    Sat::Sat => m.unwrap(),
                    Sat::Unsat => return Err(Stop::Infeasible),
                    Sat::Unknown => return err("no witness for a violating path"),
                }
            }
        };
        let mut lines = vec![];
        let ev = |me: &Self, v: &Val| match v {
            Val::I(x) => *x,
            Val::S(t) => me.eval_with(&w, &[*t])[0],
            _ => 0,
        };
        for (i, (name, v)) in self.inputs.iter().enumerate() {
            lines.push((format!("u64 {i}"), format!("{} # {}", ev(self, v), name)));
        }
        for (i, (k, v)) in self.choices.iter().enumerate() {
            lines.push((format!("choice {i}"), format!("{v} # {k}")));
        }
        for d in &self.draws {
            lines.push((format!("draw {} {} {} {}", d.seed.0, d.seed.1, d.pos, d.kind), format!("{}", ev(self, &d.val))));
        }
        Ok(Cex { msg: msg.to_string(), stack: self.stack(), inputs: lines })
    }

    // ------------------------------------------------------------ random draws
    pub fn draw(&mut self, seed: (u64, u64), pos: u64, kind: u32, n: u32, std: u64) -> R<Val> {
        let key = (seed.0, seed.1, pos, kind);
        let ord = self.draws.len() as u64;
        if let Some(i) = self.drawmap.get(&key) {
            let v = self.draws[*i].val.clone();
            self.log.push((kind as u64 + 100, *i as u64));
            return Ok(v);
        }
        let name = format!("r{}_{}_{}", ord, ["u", "b", "t", "g", "s"][kind as usize], pos);
        let conc = self.concrete.is_some();
        if let (true, Some(r)) = (conc, &self.replay) {
            let v = r.draws.get(&key).copied().unwrap_or(0);
            self.drawmap.insert(key, self.draws.len());
            self.draws.push(Draw { seed, pos, kind, n, val: Val::I(v), std, ord });
            return Ok(Val::I(v));
        }
        let val = match kind {
            0 => {
                let g = self.cfgv(CFG_GRAN, 64).min(64) as u32;
                if n == 8 {
                    if self.cfgv(CFG_MASKS, 0) == 1 && self.cfgv(CFG_PLAIN, 0) == 0 {
                        Val::I(0)
                    } else if self.cfgv(CFG_MASKS, 0) == 2 && self.cfgv(CFG_PLAIN, 0) == 0 {
                        // fixed pseudo-random masks
                        let mut h = seed.0 ^ seed.1.rotate_left(29) ^ pos.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xA5_5A11;
                        h = (h ^ (h >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                        h = (h ^ (h >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                        h ^= h >> 30;
                        Val::I((h >> (64 - g)) << (64 - g))
                    } else if conc {
                        Val::I((self.rand() >> (64 - g)) << (64 - g))
                    } else {
                        let hi = mask(g as u8);
                        let t = self.ts.var(name, 64, 0, hi, false);
                        let t = self.ts.shl(t, 64 - g);
                        self.of_t(t)
                    }
                } else {
                    let w = n * 8;
                    if conc {
                        Val::I(self.rand() & mask(w as u8))
                    } else {
                        let t = self.ts.var(name, w as u8, 0, mask(w as u8), false);
                        let t = self.ts.zext(t, 64);
                        self.of_t(t)
                    }
                }
            }
            1 => {
                let lim = self.cfgv(CFG_KEYBITS, u64::MAX);
                self.nbin += 1;
                if self.nbin > lim {
                    Val::I((self.nbin - lim) & 1)
                } else if conc {
                    Val::I(self.rand() & 1)
                } else {
                    let t = self.ts.var(name, 64, 0, 1, false);
                    self.of_t(t)
                }
            }
            2 => {
                if conc {
                    Val::I((self.rand() % 3).wrapping_sub(1))
                } else {
                    let t = self.ts.var(name, 64, 0, 2, false);
                    let o = self.ts.k(64, 1);
                    let t = self.ts.sub(t, o);
                    self.of_t(t)
                }
            }
            4 => {
                // material for a derived seed: a fixed pseudo-random function of the position
                let mut h = seed.0 ^ seed.1.rotate_left(17) ^ pos.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5EED;
                h = (h ^ (h >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                h = (h ^ (h >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                Val::I(h ^ (h >> 31))
            }
            _ => {
                let e = self.cfgv(CFG_NOISE, 0);
                if e == 0 || f64::from_bits(std) == 0.0 {
                    Val::I(0)
                } else if conc {
                    let b = 1u64 << e;
                    Val::I((self.rand() % (2 * b - 1)).wrapping_sub(b - 1))
                } else {
                    let b = (1u64 << e) - 1;
                    let t = self.ts.var(name, 64, 0, 2 * b, true);
                    let o = self.ts.k(64, b);
                    let t = self.ts.sub(t, o);
                    self.of_t(t)
                }
            }
        };
        self.drawmap.insert(key, self.draws.len());
        self.draws.push(Draw { seed, pos, kind, n, val: val.clone(), std, ord });
        Ok(val)
    }
    pub fn input(&mut self, name: String, bits: u32) -> Val {
        let v = if let (Some(_), Some(r)) = (&self.concrete, &self.replay) {
            Val::I(r.inputs.get(self.inputs.len()).copied().unwrap_or(0) & mask(bits as u8))
        } else if self.concrete.is_some() {
            Val::I(self.rand() & mask(bits as u8))
        } else {
            let t = self.ts.var(name.clone(), 64, 0, mask(bits as u8), false);
            self.of_t(t)
        };
        self.inputs.push((name, v.clone()));
        v
    }
    pub fn record_choice(&mut self, k: &str, v: u64) {
        self.choices.push((k.to_string(), v));
    }
    pub fn entropy(&mut self, kind: u64) -> R<Val> {
        // distinct arbitrary constants: freshness is what matters
        self.nentropy += 1;
        let v = self.nentropy.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (kind << 60);
        self.log.push((200 + kind, v));
        self.record_choice("entropy", v);
        Ok(Val::I(v))
    }
    pub fn index(&mut self, n: u64) -> R<Val> {
        self.nperm += 1;
        let lim = self.cfgv(CFG_PERM, u64::MAX);
        let v = if lim >= 1000 && lim != u64::MAX {
            // a fixed pseudo-random permutation
            let mut z = (lim << 32).wrapping_add(self.nperm as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            (z >> 16) % n
        } else if self.nperm > lim {
            n - 1
        } else {
            self.choose(n)?
        };
        self.record_choice("index", v);
        Ok(Val::I(v))
    }
    /// the outcome of a shuffle of `n` machine words: any permutation, as solver variables
    pub fn shuffle(&mut self, p: u64, n: u64) -> R<bool> {
        if self.cfgv(CFG_PERM_SYM, 0) == 0 || n < 2 {
            return Ok(false);
        }
        let mut c = vec![];
        for i in 0..n {
            match self.load_n(p + 8 * i, 8, 64)? {
                Val::I(v) => c.push(v),
                _ => return Ok(false),
            }
        }
        if self.concrete.is_some() && self.replay.is_some() {
            for i in 0..n {
                let k = self.input("shuffle".into(), 64);
                let k = self.int(&k, "shuffle")?;
                if k >= n {
                    return Err(Stop::Infeasible);
                }
                self.store(p + 8 * i, &Ty::Int(64), &Val::I(c[k as usize]))?;
            }
            return Ok(true);
        }
        if self.concrete.is_some() {
            for i in (1..n as usize).rev() {
                let j = (self.rand() % (i as u64 + 1)) as usize;
                c.swap(i, j);
                self.record_choice("shuffle", j as u64);
            }
            for (i, v) in c.iter().enumerate() {
                self.store(p + 8 * i as u64, &Ty::Int(64), &Val::I(*v))?;
            }
            return Ok(true);
        }
        let mut idx: Vec<T> = vec![];
        for i in 0..n {
            let t = self.ts.var("shuffle".into(), 64, 0, n - 1, false);
            let v = self.of_t(t);
            self.inputs.push(("shuffle".into(), v));
            for o in idx.clone() {
                let d = self.ts.sub(o, t);
                let z = self.ts.is_zero(d);
                let z = self.ts.not1(z);
                self.add_pc(z);
            }
            idx.push(t);
            let _ = i;
        }
        self.witness = None;
        let (s, m) = self.sat_with(&[])?;
        match s {
            Sat::Sat => self.witness = m,
            _ => return err("shuffle"),
        }
        let affine = (0..n).all(|k| c[k as usize] == c[0].wrapping_add(k.wrapping_mul(c[1].wrapping_sub(c[0]))));
        for (i, t) in idx.iter().enumerate() {
            let v = if affine {
                let x = self.ts.scale(*t, c[1].wrapping_sub(c[0]));
                let k = self.ts.k(64, c[0]);
                self.ts.add(x, k)
            } else {
                let mut v = self.ts.k(64, c[0]);
                for k in 1..n {
                    let kk = self.ts.k(64, k);
                    let d = self.ts.sub(*t, kk);
                    let z = self.ts.is_zero(d);
                    let ck = self.ts.k(64, c[k as usize]);
                    v = self.ts.select(z, ck, v);
                }
                v
            };
            let v = self.of_t(v);
            self.store(p + 8 * i as u64, &Ty::Int(64), &v)?;
        }
        Ok(true)
    }
    pub fn sched(&mut self, n: u64) -> R<Val> {
        self.nsched += 1;
        let lim = self.cfgv(CFG_SCHED, 0);
        let v = if self.nsched <= lim {
            self.choose(n)?
        } else if self.ndev < self.cfgv(CFG_SCHED_DEV, 0) {
            let v = self.choose(n)?;
            self.ndev += (v > 0) as u64;
            v
        } else {
            self.cfgv(CFG_SCHED_DEF, 0)
        };
        self.record_choice("sched", v);
        Ok(Val::I(v))
    }

    pub fn preempt(&mut self, n: u64) -> R<Val> {
        let v = if self.npreempt >= self.cfgv(CFG_PREEMPT, 0) { 0 } else { self.choose(n)? };
        if v > 0 {
            self.npreempt += 1;
            self.preempted += 1;
        }
        self.record_choice("preempt", v);
        Ok(Val::I(v))
    }

    // ------------------------------------------------------------ arithmetic
    fn bin_int(&mut self, o: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 64 {
            let g = |v: &Val| match v {
                Val::W(x) => Some(**x),
                Val::I(x) => Some(*x as u128),
                Val::U => Some(0),
                _ => None,
            };
            let (x, y) = match (g(a), g(b)) {
                (Some(x), Some(y)) => (x, y),
                _ if w == 128 => return self.d_bin(o, a, b),
                _ => return err("symbolic arithmetic wider than 64 bits"),
            };
            let m = if w == 128 { !0u128 } else { (1u128 << w) - 1 };
            let s = |v: u128| if w == 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
            let r = match o {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => s(x).wrapping_div(s(y)) as u128,
                Bin::SRem => s(x).wrapping_rem(s(y)) as u128,
                Bin::Shl => x.checked_shl(y as u32).unwrap_or(0),
                Bin::LShr => x.checked_shr(y as u32).unwrap_or(0),
                Bin::AShr => (s(x) >> (y as u32).min(127)) as u128,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                _ => return err("wide float"),
            };
            return Ok(Val::W(Rc::new(r & m)));
        }
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w as u8);
            let r = match o {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => {
                    if y == 0 {
                        return Err(Stop::Violation("division by zero".into()));
                    }
                    x / y
                }
                Bin::URem => {
                    if y == 0 {
                        return Err(Stop::Violation("division by zero".into()));
                    }
                    x % y
                }
                Bin::SDiv => sx(x, w as u8).wrapping_div(sx(y, w as u8)) as u64,
                Bin::SRem => sx(x, w as u8).wrapping_rem(sx(y, w as u8)) as u64,
                Bin::Shl => x.checked_shl(y as u32).unwrap_or(0),
                Bin::LShr => x.checked_shr(y as u32).unwrap_or(0),
                Bin::AShr => (sx(x, w as u8) >> y.min(63)) as u64,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                _ => return err("float op on ints"),
            };
            return Ok(Val::I(r & m));
        }
        let ta = self.to_t(a, w)?;
        let tb = self.to_t(b, w)?;
        let r = match o {
            Bin::Add => self.ts.add(ta, tb),
            Bin::Sub => self.ts.sub(ta, tb),
            Bin::Mul => self.ts.mul(ta, tb),
            Bin::And => self.ts.and(ta, tb),
            Bin::Or => self.ts.or(ta, tb),
            Bin::Xor => self.ts.xor(ta, tb),
            Bin::UDiv => self.ts.op2(OpK::UDiv, ta, tb),
            Bin::URem => self.ts.op2(OpK::URem, ta, tb),
            Bin::SDiv => self.ts.op2(OpK::SDiv, ta, tb),
            Bin::SRem => self.ts.op2(OpK::SRem, ta, tb),
            Bin::Shl => self.ts.op2(OpK::Shl, ta, tb),
            Bin::LShr => self.ts.op2(OpK::LShr, ta, tb),
            Bin::AShr => match self.ts.as_const(tb) {
                Some(c) => self.ts.ashr(ta, c as u32),
                None => return err("symbolic arithmetic shift amount"),
            },
            _ => return err("float op on ints"),
        };
        Ok(self.of_t(r))
    }
    pub fn fp(&mut self, v: &Val) -> R<FP> {
        match v {
            Val::F(i) => Ok(self.ft.vals[*i as usize].clone()),
            Val::I(x) => FP::from_f64(f64::from_bits(*x)).map_err(|e| Stop::Error(e.0)),
            Val::U => Ok(FP::default()),
            _ => err("integer term used as a double"),
        }
    }
    pub fn of_fp(&mut self, f: FP) -> Val {
        if f.t.is_empty() {
            return Val::I(0);
        }
        Val::F(self.ft.push(f))
    }
    fn bin_f(&mut self, o: Bin, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            return Ok(Val::I(
                match o {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    Bin::FRem => x % y,
                    _ => return err("int op on floats"),
                }
                .to_bits(),
            ));
        }
        let fa = self.fp(a)?;
        let fb = self.fp(b)?;
        let r = match o {
            Bin::FAdd => fa.add(&fb, 1),
            Bin::FSub => fa.add(&fb, -1),
            Bin::FMul => self.ft.mul(&fa, &fb),
            _ => return err("unsupported floating-point operation on Fourier values"),
        }
        .map_err(|e| Stop::Error(format!("fourier model: {}", e.0)))?;
        Ok(self.of_fp(r))
    }
    fn bin(&mut self, o: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        match ty {
            Ty::Int(w) => self.bin_int(o, *w, a, b),
            Ty::F64 => self.bin_f(o, a, b),
            Ty::F32 => match (a, b) {
                (Val::I(x), Val::I(y)) => {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    Ok(Val::I(
                        match o {
                            Bin::FAdd => x + y,
                            Bin::FSub => x - y,
                            Bin::FMul => x * y,
                            Bin::FDiv => x / y,
                            _ => return err("f32 op"),
                        }
                        .to_bits() as u64,
                    ))
                }
                _ => err("symbolic f32"),
            },
            Ty::Vec(_, t) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let mut r = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        r.push(self.bin(o, t, &x[i], &y[i])?);
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => err("vector op"),
            },
            _ => err(format!("binop on {ty:?}")),
        }
    }
    pub fn cmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = match ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(_, t) => {
                return match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut r = vec![];
                        for i in 0..x.len() {
                            r.push(self.cmp(p, t, &x[i], &y[i])?);
                        }
                        Ok(Val::A(Rc::new(r)))
                    }
                    _ => err("vector cmp"),
                }
            }
            _ => return err("icmp type"),
        };
        let conc = |v: &Val| match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            Val::U => Some(0),
            _ => None,
        };
        if let (Some(x), Some(y)) = (conc(a), conc(b)) {
            let s = |v: u128| if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Ok(Val::I(r as u64));
        }
        if w == 128 {
            return self.d_cmp(p, a, b);
        }
        if w > 64 {
            return err("symbolic comparison wider than 64 bits");
        }
        let ta = self.to_t(a, w)?;
        let tb = self.to_t(b, w)?;
        let r = match p {
            Pred::Eq | Pred::Ne => {
                let d = self.ts.sub(ta, tb);
                let z = self.ts.is_zero(d);
                if p == Pred::Eq {
                    z
                } else {
                    self.ts.not1(z)
                }
            }
            Pred::Ult => self.ts.ult(ta, tb),
            Pred::Ugt => self.ts.ult(tb, ta),
            Pred::Uge => {
                let x = self.ts.ult(ta, tb);
                self.ts.not1(x)
            }
            Pred::Ule => {
                let x = self.ts.ult(tb, ta);
                self.ts.not1(x)
            }
            Pred::Slt => self.ts.slt(ta, tb),
            Pred::Sgt => self.ts.slt(tb, ta),
            Pred::Sge => {
                let x = self.ts.slt(ta, tb);
                self.ts.not1(x)
            }
            Pred::Sle => {
                let x = self.ts.slt(tb, ta);
                self.ts.not1(x)
            }
        };
        Ok(self.of_t(r))
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(_, ft), Ty::Vec(_, tt), Val::A(x)) = (from, to, v) {
            if !matches!(k, Cast::Bitcast) {
                let mut r = vec![];
                for e in x.iter() {
                    r.push(self.cast(k, ft, tt, e)?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        match k {
            Cast::PtrToInt | Cast::IntToPtr => {
                let n = to.bits();
                match v {
                    Val::I(x) => Ok(Val::I(x & mask(n as u8))),
                    _ => Ok(v.clone()),
                }
            }
            Cast::Trunc => {
                let n = to.bits();
                match v {
                    Val::I(x) => Ok(Val::I(x & mask(n as u8))),
                    Val::W(x) => Ok(if n > 64 { Val::W(Rc::new(**x & ((1 << n) - 1))) } else { Val::I(**x as u64 & mask(n as u8)) }),
                    Val::S(t) => {
                        let r = self.ts.trunc(*t, n as u8);
                        Ok(self.of_t(r))
                    }
                    Val::D(p) if n <= 64 => {
                        let r = if n < 64 { self.ts.trunc(p.0, n as u8) } else { p.0 };
                        Ok(self.of_t(r))
                    }
                    Val::U => Ok(Val::I(0)),
                    _ => err("trunc"),
                }
            }
            Cast::Zext => {
                let n = to.bits();
                match v {
                    Val::I(x) => Ok(if n > 64 { Val::W(Rc::new(*x as u128)) } else { Val::I(*x) }),
                    Val::W(x) => Ok(Val::W(x.clone())),
                    Val::S(t) => {
                        if n == 128 {
                            return Ok(self.d_zext(*t));
                        }
                        if n > 64 {
                            return err("symbolic zext beyond 64 bits");
                        }
                        let r = self.ts.zext(*t, n as u8);
                        Ok(self.of_t(r))
                    }
                    Val::U => Ok(self.zero(to)),
                    _ => err("zext"),
                }
            }
            Cast::Sext => {
                let (a, n) = (from.bits(), to.bits());
                match v {
                    Val::I(x) => {
                        let s = sx(*x, a as u8);
                        Ok(if n > 64 { Val::W(Rc::new(s as i128 as u128)) } else { Val::I(s as u64 & mask(n as u8)) })
                    }
                    Val::S(t) => {
                        if n == 128 {
                            return Ok(self.d_sext(*t));
                        }
                        if n > 64 {
                            return err("symbolic sext beyond 64 bits");
                        }
                        let r = self.ts.sext(*t, n as u8);
                        Ok(self.of_t(r))
                    }
                    Val::U => Ok(self.zero(to)),
                    _ => err("sext"),
                }
            }
            Cast::Bitcast => {
                if let (Ty::Vec(n, t), Val::A(x)) = (from, v) {
                    if let Ty::Int(tn) = to {
                        let eb = t.bits();
                        if *n as u32 * eb != *tn {
                            return err("bitcast size");
                        }
                        if *tn <= 64 && x.iter().any(|e| matches!(e, Val::S(_))) {
                            let mut acc = self.ts.k(*tn as u8, 0);
                            for (i, e) in x.iter().enumerate() {
                                let t = self.to_t(e, eb)?;
                                let z = self.ts.zext(t, *tn as u8);
                                let s = self.ts.shl(z, i as u32 * eb);
                                acc = self.ts.add(acc, s);
                            }
                            return Ok(self.of_t(acc));
                        }
                        let mut r = 0u128;
                        for (i, e) in x.iter().enumerate() {
                            match e {
                                Val::I(b) => r |= (*b as u128) << (i as u32 * eb),
                                _ => return err("bitcast of symbolic vector"),
                            }
                        }
                        return Ok(if *tn > 64 { Val::W(Rc::new(r)) } else { Val::I(r as u64) });
                    }
                    if let Ty::Vec(m, t2) = to {
                        // re-slice
                        let (eb, fb) = (t.bits(), t2.bits());
                        let mut bytes = vec![];
                        for e in x.iter() {
                            match e {
                                Val::I(b) => bytes.extend_from_slice(&b.to_le_bytes()[..(eb / 8) as usize]),
                                _ => return err("bitcast of symbolic vector"),
                            }
                        }
                        let mut r = vec![];
                        for i in 0..*m as usize {
                            let mut q = 0u64;
                            for k in 0..(fb / 8) as usize {
                                q |= (bytes[i * (fb / 8) as usize + k] as u64) << (8 * k);
                            }
                            r.push(Val::I(q));
                        }
                        return Ok(Val::A(Rc::new(r)));
                    }
                }
                if let (Ty::Int(n), Ty::Vec(m, t), Val::I(_) | Val::W(_)) = (from, to, v) {
                    let x = match v {
                        Val::I(x) => *x as u128,
                        Val::W(x) => **x,
                        _ => 0,
                    };
                    let eb = n / *m as u32;
                    let _ = t;
                    return Ok(Val::A(Rc::new((0..*m).map(|i| Val::I((x >> (i as u32 * eb)) as u64 & mask(eb as u8))).collect())));
                }
                match (from, to) {
                    (Ty::F64, Ty::Int(64)) | (Ty::Int(64), Ty::F64) | (Ty::F32, Ty::Int(32)) | (Ty::Int(32), Ty::F32) => Ok(v.clone()),
                    _ => Ok(v.clone()),
                }
            }
            Cast::UiToFp | Cast::SiToFp => match v {
                Val::I(x) => {
                    let f = if k == Cast::UiToFp { *x as f64 } else { sx(*x, from.bits() as u8) as f64 };
                    Ok(Val::I(if *to == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() }))
                }
                Val::W(x) => Ok(Val::I((if k == Cast::UiToFp { **x as f64 } else { **x as i128 as f64 }).to_bits())),
                Val::D(p) => {
                    let (l, h) = (self.concretise(p.0, "integer converted to floating point")?, self.concretise(p.1, "integer converted to floating point")?);
                    self.cast(k, from, to, &Val::W(Rc::new(l as u128 | (h as u128) << 64)))
                }
                Val::S(t) => {
                    // concrete doubles only: enumerate
                    let x = self.concretise(*t, "integer converted to floating point")?;
                    self.cast(k, from, to, &Val::I(x))
                }
                _ => err("int to float"),
            },
            Cast::FpToUi | Cast::FpToSi => match v {
                Val::I(x) => {
                    let f = if *from == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                    if to.bits() > 64 {
                        return Ok(Val::W(Rc::new(if k == Cast::FpToUi { f as u128 } else { f as i128 as u128 })));
                    }
                    let r = if k == Cast::FpToUi { f as u64 } else { f as i64 as u64 };
                    Ok(Val::I(r & mask(to.bits() as u8)))
                }
                _ => err("symbolic float to int"),
            },
            Cast::FpExt => match v {
                Val::I(x) => Ok(Val::I((f32::from_bits(*x as u32) as f64).to_bits())),
                _ => err("fpext"),
            },
            Cast::FpTrunc => match v {
                Val::I(x) => Ok(Val::I((f64::from_bits(*x) as f32).to_bits() as u64)),
                _ => err("fptrunc"),
            },
        }
    }
    pub fn select(&mut self, ty: &Ty, c: &Val, a: Val, b: Val) -> R<Val> {
        match c {
            Val::I(1) => Ok(a),
            Val::I(_) | Val::U => Ok(b),
            Val::S(t) => {
                let t = self.ts.subst_known(*t, &self.known);
                if let Some(k) = self.ts.as_const(t) {
                    return Ok(if k == 1 { a } else { b });
                }
                match ty {
                    Ty::Int(w) if *w <= 64 => {
                        let x = self.to_t(&a, *w)?;
                        let y = self.to_t(&b, *w)?;
                        let r = self.ts.select(t, x, y);
                        Ok(self.of_t(r))
                    }
                    Ty::Int(128) => {
                        let (x, y) = (self.to_d(&a)?, self.to_d(&b)?);
                        let r = (self.ts.select(t, x.0, y.0), self.ts.select(t, x.1, y.1));
                        Ok(self.of_d(r))
                    }
                    _ => {
                        let k = self.branch(t)?;
                        Ok(if k { a } else { b })
                    }
                }
            }
            Val::A(cs) => match (&a, &b, ty) {
                (Val::A(x), Val::A(y), Ty::Vec(_, t)) => {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(self.select(t, &cs[i], x[i].clone(), y[i].clone())?);
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => err("vector select"),
            },
            _ => err("select"),
        }
    }

    // ------------------------------------------------------------ execution
    fn push(&mut self, id: u32, args: &[Val], dst: Option<u32>) -> R<()> {
        let f = self.get_func(id);
        self.covered.insert(id);
        let base = self.regs.len();
        if self.frames.len() > 3000 {
            return Err(Stop::Violation("stack overflow (recursion deeper than 3000 frames)".into()));
        }
        self.regs.resize(base + f.nregs as usize, Val::U);
        if args.len() < f.params.len() {
            return err(format!("call of {} with {} arguments", f.name, args.len()));
        }
        for (i, (r, _)) in f.params.iter().enumerate() {
            self.regs[base + *r as usize] = args[i].clone();
        }
        self.frames.push(Frame { f, base, blk: 0, prev: 0, ip: 0, sp: self.mem.sp, dst });
        Ok(())
    }
    pub fn entry_exists(&self, name: &str) -> bool {
        self.gsym.contains_key(name)
    }
    pub fn run(&mut self, entry: &str, args: &[Val]) -> Stop {
        let (m, n) = match self.find_func(0, entry) {
            Some(x) => x,
            None => return Stop::Error(format!("entry {entry} not found")),
        };
        let id = self.func_id(m, &n);
        self.cnt = 0;
        if let Err(e) = self.push(id, args, None) {
            return e;
        }
        let t0 = Instant::now();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.looprun()));
        self.stats.instr = self.cnt;
        self.stats.secs += t0.elapsed().as_secs_f64();
        self.stats.max_monos = self.stats.max_monos.max(self.ts.biggest as u64);
        self.stats.atoms = self.stats.atoms.max(self.ts.atoms.len() as u64);
        match r {
            Ok(Err(Stop::Done)) | Ok(Ok(())) => match self.incomplete.take() {
                Some(m) => Stop::Error(m),
                None => Stop::Done,
            },
            Ok(Err(e)) => e,
            Err(p) => {
                if p.downcast_ref::<Aborted>().is_some() {
                    Stop::Error("given up: out of time or memory".into())
                } else if p.downcast_ref::<TooBig>().is_some() {
                    Stop::Error(format!("symbolic expression too large in {:?}", self.stack().iter().take(4).collect::<Vec<_>>()))
                } else {
                    let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                    Stop::Error(format!("engine panic: {:?} in {:?}", s, self.stack().iter().take(6).collect::<Vec<_>>()))
                }
            }
        }
    }
    fn looprun(&mut self) -> R<()> {
        loop {
            let fi = self.frames.len() - 1;
            let (f, base, mut blk, mut ip) = {
                let fr = &self.frames[fi];
                (fr.f.clone(), fr.base, fr.blk, fr.ip)
            };
            // run within this frame until call/return
            'frame: loop {
                let b = &f.blocks[blk as usize];
                let ins = &b.ins[ip];
                self.cnt += 1;
                if self.cnt & 0xffff == 0 {
                    self.stats.instr = self.cnt;
                    if Instant::now() > self.deadline || ABORT[self.worker].load(std::sync::atomic::Ordering::Relaxed) != 0 {
                        return err("given up: out of time or memory");
                    }
                    if self.stats.instr > self.max_instr {
                        return err("instruction budget exhausted");
                    }
                }
                match ins {
                    Ins::Br(t) => {
                        self.jump(&f, base, fi, blk, *t)?;
                        blk = *t;
                        ip = 0;
                        continue 'frame;
                    }
                    Ins::CondBr(c, t, e) => {
                        let c = self.v(base, c);
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip;
                        let k = match c {
                            Val::I(x) => x & 1 == 1,
                            Val::S(t) => self.branch(t)?,
                            Val::U => false,
                            _ => return err("branch on non-integer"),
                        };
                        let d = if k { *t } else { *e };
                        self.jump(&f, base, fi, blk, d)?;
                        blk = d;
                        ip = 0;
                        continue 'frame;
                    }
                    Ins::Switch(_, v, def, cases) => {
                        let v = self.v(base, v);
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip;
                        let d = if let Val::S(t) = &v {
                            // a case per branch: the default side stays symbolic
                            let w = self.ts.w(*t);
                            let mut d = *def;
                            for c in cases.iter() {
                                let k = self.ts.k(w, c.0 as u64);
                                let df = self.ts.sub(*t, k);
                                let z = self.ts.is_zero(df);
                                if self.branch(z)? {
                                    d = c.1;
                                    break;
                                }
                            }
                            d
                        } else {
                            let x = match &v {
                                Val::W(x) => **x,
                                v => self.int(v, "switch selector")? as u128,
                            };
                            cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def)
                        };
                        self.jump(&f, base, fi, blk, d)?;
                        blk = d;
                        ip = 0;
                        continue 'frame;
                    }
                    Ins::Ret(v) => {
                        let r = v.as_ref().map(|(_, o)| self.v(base, o));
                        let fr = self.frames.pop().unwrap();
                        // release stack shadow
                        let (lo, hi) = (fr.sp, self.mem.sp);
                        self.mem.clear_shadow(lo, hi - lo);
                        self.mem.sp = fr.sp;
                        self.regs.truncate(fr.base);
                        if self.frames.is_empty() {
                            
                            return Ok(());
                        }
                        if let (Some(d), Some(r)) = (fr.dst, r) {
                            let b = self.frames.last().unwrap().base;
                            self.regs[b + d as usize] = r;
                        }
                        break 'frame;
                    }
                    Ins::Call { dst, callee, name: _, args, ret, cache } => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| self.v(base, o)).collect();
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip + 1;
                        let tg = if cache.get() != u32::MAX {
                            self.targets[cache.get() as usize]
                        } else {
                            let a = self.v(base, callee);
                            let a = self.int(&a, "function pointer")?;
                            if a >= FN_BASE + 0x100_0000_0000 {
                                Target::Intr(((a - FN_BASE - 0x100_0000_0000) / 16) as u32)
                            } else if a >= FN_BASE {
                                Target::Func(((a - FN_BASE) / 16) as u32)
                            } else {
                                return Err(Stop::Violation(format!("call through invalid pointer {a:#x}")));
                            }
                        };
                        match tg {
                            Target::Intr(i) => {
                                let (fun, nm) = self.intr[i as usize].clone();
                                let r = fun(self, &av, &nm)?;
                                if let Some(d) = dst {
                                    let r = match r {
                                        Some(r) => r,
                                        None => self.zero(ret),
                                    };
                                    self.regs[base + *d as usize] = r;
                                }
                                ip += 1;
                                continue 'frame;
                            }
                            Target::Func(id) => {
                                if self.prehash[id as usize] {
                                    let p = self.int(&av[0], "hash key address")?;
                                    if let Val::S(t) = self.load_n(p, 8, 64)? {
                                        let v = self.concretise(t, "hash map key")?;
                                        self.store(p, &Ty::Int(64), &Val::I(v))?;
                                    }
                                }
                                self.push(id, &av, *dst)?;
                                if self.lockhook[id as usize] && self.npreempt < self.cfgv(CFG_PREEMPT, 0) {
                                    if let Some((m, n)) = self.find_func(0, "__vp_yield") {
                                        let y = self.func_id(m, &n);
                                        self.push(y, &[], None)?;
                                    }
                                }
                                break 'frame;
                            }
                        }
                    }
                    Ins::Unreachable => return err(format!("unreachable executed in {}", f.pretty)),
                    ins => {
                        // record position for diagnostics before fallible operations
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip;
                        self.simple(base, ins)?;
                        ip += 1;
                    }
                }
            }
        }
    }
    #[inline]
    fn jump(&mut self, f: &Rc<Func>, base: usize, fi: usize, from: u32, to: u32) -> R<()> {
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (r, _, inc) in &b.phis {
                let o = inc.iter().find(|x| x.1 == from).map(|x| &x.0);
                match o {
                    Some(o) => vals.push((*r, self.v(base, o))),
                    None => return err("phi"),
                }
            }
            for (r, v) in vals {
                self.regs[base + r as usize] = v;
            }
        }
        let fr = &mut self.frames[fi];
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn simple(&mut self, base: usize, ins: &Ins) -> R<()> {
        match ins {
            Ins::Alloca(d, size, al) => {
                let a = (self.mem.sp + al - 1) / al * al;
                self.mem.sp = a + size;
                if self.mem.sp > MEM_SIZE - 65536 {
                    return err("engine stack exhausted");
                }
                self.regs[base + *d as usize] = Val::I(a);
            }
            Ins::Load(d, ty, p) => {
                let p = self.v(base, p);
                let a = self.int(&p, "load address")?;
                let v = self.load(a, ty)?;
                self.regs[base + *d as usize] = v;
            }
            Ins::Store(ty, v, p) => {
                let p = self.v(base, p);
                let a = self.int(&p, "store address")?;
                let v = self.v(base, v);
                self.store(a, ty, &v)?;
            }
            Ins::Gep(d, b, steps, ops) => {
                let b = self.v(base, b);
                let mut acc = 0u64;
                let mut sym: Option<T> = None;
                match &b {
                    Val::I(x) => acc = *x,
                    Val::S(t) => sym = Some(*t),
                    Val::U => {}
                    _ => return err("gep base"),
                }
                for s in steps {
                    match s {
                        GepStep::Off(o) => acc = acc.wrapping_add(*o as u64),
                        GepStep::Scale(k, es, bits) => {
                            let v = self.v(base, &ops[*k as usize]);
                            match v {
                                Val::I(x) => acc = acc.wrapping_add((sx(x, *bits as u8) as u64).wrapping_mul(*es)),
                                Val::S(t) => {
                                    let t = if *bits < 64 { self.ts.sext(t, 64) } else { t };
                                    let t = self.ts.scale(t, *es);
                                    sym = Some(match sym {
                                        Some(s) => self.ts.add(s, t),
                                        None => t,
                                    });
                                }
                                Val::U => {}
                                _ => return err("gep index"),
                            }
                        }
                    }
                }
                let r = match sym {
                    None => Val::I(acc),
                    Some(t) => {
                        let k = self.ts.k(64, acc);
                        let t = self.ts.add(t, k);
                        self.of_t(t)
                    }
                };
                self.regs[base + *d as usize] = r;
            }
            Ins::Bin(d, o, ty, a, b) => {
                let a = self.v(base, a);
                let b = self.v(base, b);
                let r = self.bin(*o, ty, &a, &b)?;
                self.regs[base + *d as usize] = r;
            }
            Ins::Cmp(d, p, ty, a, b) => {
                let a = self.v(base, a);
                let b = self.v(base, b);
                let r = self.cmp(*p, ty, &a, &b)?;
                self.regs[base + *d as usize] = r;
            }
            Ins::FCmp(d, p, ty, a, b) => {
                let a = self.v(base, a);
                let b = self.v(base, b);
                let (x, y) = match (&a, &b, ty) {
                    (Val::I(x), Val::I(y), Ty::F64) => (f64::from_bits(*x), f64::from_bits(*y)),
                    (Val::I(x), Val::I(y), Ty::F32) => (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64),
                    _ => return err("comparison of Fourier-domain values"),
                };
                let r = if x.is_nan() || y.is_nan() {
                    p & 8 != 0
                } else {
                    (x < y && p & 1 != 0) || (x == y && p & 2 != 0) || (x > y && p & 4 != 0)
                };
                self.regs[base + *d as usize] = Val::I(r as u64);
            }
            Ins::FNeg(d, ty, a) => {
                let a = self.v(base, a);
                let r = match (&a, ty) {
                    (Val::I(x), Ty::F64) => Val::I((-f64::from_bits(*x)).to_bits()),
                    (Val::F(_), _) => {
                        let f = self.fp(&a)?.neg();
                        self.of_fp(f)
                    }
                    _ => return err("fneg"),
                };
                self.regs[base + *d as usize] = r;
            }
            Ins::Cast(d, k, from, to, v) => {
                let v = self.v(base, v);
                let r = self.cast(*k, from, to, &v)?;
                self.regs[base + *d as usize] = r;
            }
            Ins::Select(d, ty, c, a, b, _) => {
                let c = self.v(base, c);
                let a = self.v(base, a);
                let b = self.v(base, b);
                let r = self.select(ty, &c, a, b)?;
                self.regs[base + *d as usize] = r;
            }
            Ins::Extract(d, a, idx) => {
                let mut v = self.v(base, a);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        Val::U => Val::U,
                        _ => return err("extractvalue"),
                    };
                }
                self.regs[base + *d as usize] = v;
            }
            Ins::Insert(d, ty, a, e, idx) => {
                let a = self.v(base, a);
                let e = self.v(base, e);
                let a = if let Val::U = a { self.zero(ty) } else { a };
                fn ins(v: Val, e: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return e;
                    }
                    match v {
                        Val::A(mut x) => {
                            let m = Rc::make_mut(&mut x);
                            let old = std::mem::replace(&mut m[idx[0] as usize], Val::U);
                            m[idx[0] as usize] = ins(old, e, &idx[1..]);
                            Val::A(x)
                        }
                        v => v,
                    }
                }
                self.regs[base + *d as usize] = ins(a, e, idx);
            }
            Ins::ExtractElt(d, a, i) => {
                let a = self.v(base, a);
                let i = self.v(base, i);
                let i = self.int(&i, "vector index")?;
                let r = match &a {
                    Val::A(x) => x[i as usize].clone(),
                    _ => Val::U,
                };
                self.regs[base + *d as usize] = r;
            }
            Ins::InsertElt(d, ty, a, e, i) => {
                let a = self.v(base, a);
                let e = self.v(base, e);
                let i = self.v(base, i);
                let i = self.int(&i, "vector index")?;
                let a = if let Val::U = a { self.zero(ty) } else { a };
                let r = match a {
                    Val::A(mut x) => {
                        Rc::make_mut(&mut x)[i as usize] = e;
                        Val::A(x)
                    }
                    _ => return err("insertelement"),
                };
                self.regs[base + *d as usize] = r;
            }
            Ins::Shuffle(d, ty, a, b, m) => {
                let a = self.v(base, a);
                let b = self.v(base, b);
                let a = if let Val::U = a { self.zero(ty) } else { a };
                let b = if let Val::U = b { self.zero(ty) } else { b };
                let r = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let n = x.len();
                        m.iter()
                            .map(|i| if *i < 0 { Val::I(0) } else if (*i as usize) < n { x[*i as usize].clone() } else { y[*i as usize - n].clone() })
                            .collect()
                    }
                    _ => return err("shufflevector"),
                };
                self.regs[base + *d as usize] = Val::A(Rc::new(r));
            }
            Ins::Rmw(d, o, ty, p, v) => {
                let p = self.v(base, p);
                let a = self.int(&p, "atomic address")?;
                let v = self.v(base, v);
                let old = self.load(a, ty)?;
                let w = ty.bits();
                let new = match o {
                    0 => v,
                    1 => self.bin_int(Bin::Add, w, &old, &v)?,
                    2 => self.bin_int(Bin::Sub, w, &old, &v)?,
                    3 => self.bin_int(Bin::And, w, &old, &v)?,
                    5 => self.bin_int(Bin::Or, w, &old, &v)?,
                    6 => self.bin_int(Bin::Xor, w, &old, &v)?,
                    7..=10 => {
                        let pr = [Pred::Sgt, Pred::Slt, Pred::Ugt, Pred::Ult][*o as usize - 7];
                        let c = self.cmp(pr, ty, &old, &v)?;
                        self.select(ty, &c, old.clone(), v)?
                    }
                    _ => return err("atomicrmw"),
                };
                self.store(a, ty, &new)?;
                self.regs[base + *d as usize] = old;
            }
            Ins::CmpXchg(d, ty, p, c, n) => {
                let p = self.v(base, p);
                let a = self.int(&p, "atomic address")?;
                let c = self.v(base, c);
                let n = self.v(base, n);
                let old = self.load(a, ty)?;
                let eq = self.cmp(Pred::Eq, ty, &old, &c)?;
                let k = match eq {
                    Val::I(x) => x == 1,
                    Val::S(t) => self.branch(t)?,
                    _ => return err("cmpxchg"),
                };
                if k {
                    self.store(a, ty, &n)?;
                }
                self.regs[base + *d as usize] = Val::A(Rc::new(vec![old, Val::I(k as u64)]));
            }
            Ins::Freeze(d, v) => {
                let v = self.v(base, v);
                self.regs[base + *d as usize] = v;
            }
            Ins::Fence => {}
            Ins::Unsupported(s) => return err(format!("unsupported instruction {s}")),
            _ => return err(format!("unexpected instruction {ins:?}")),
        }
        Ok(())
    }
    pub fn func_names(&self) -> Vec<(String, String)> {
        // (module path stem, pretty)
        let mut v: Vec<(String, String)> = self
            .covered
            .iter()
            .map(|i| {
                let (m, n) = &self.fname[*i as usize];
                let p = self.mods[*m].pretty.get(n.as_str()).map(|s| s.to_string()).unwrap_or(n.clone());
                let st = self.mods[*m].path.rsplit('/').next().unwrap().to_string();
                let st = st.rsplit_once('-').map(|x| x.0.to_string()).unwrap_or(st);
                (st, p)
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        self.mem.memcpy(d, s, n)
    }
    pub fn memset(&mut self, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.mem.chk(d, n)?;
        match v {
            Val::I(x) => {
                self.mem.d[d as usize..(d + n) as usize].fill(*x as u8);
                self.mem.clear_shadow(d, n);
                Ok(())
            }
            Val::S(t) => {
                let t = *t;
                for i in 0..n {
                    self.mem.set_sh(d + i, t, 0);
                }
                Ok(())
            }
            _ => err("memset value"),
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> R<u64> {
        let a = self.mem.alloc(size, align)?;
        if zero {
            self.memset(a, &Val::I(0), size)?;
        }
        Ok(a)
    }
    pub fn dealloc(&mut self, a: u64) -> R<()> {
        self.mem.dealloc(a)
    }
    pub fn frame_base(&self) -> usize {
        self.frames.last().unwrap().base
    }
    pub fn set_known(&mut self, a: AtomId, v: u64) {
        self.known.insert(a, v);
    }
    pub fn known_subst(&mut self, t: T) -> T {
        self.ts.subst_known(t, &self.known)
    }
    /// candidate secret keys of ring size n: runs of binary draws
    fn keys(&mut self, n: usize) -> Vec<Vec<T>> {
        let mut out = vec![];
        if self.cut_key.len() == n {
            out.push(self.cut_key.clone());
        }
        let mut i = 0;
        while i < self.draws.len() && out.len() < 5 {
            if self.draws[i].kind != 1 {
                i += 1;
                continue;
            }
            let s = self.draws[i].seed;
            let j = i;
            while i < self.draws.len() && i < j + n && self.draws[i].kind == 1 && self.draws[i].seed == s {
                i += 1;
            }
            if i - j == n {
                let vs: Vec<Val> = self.draws[j..i].iter().map(|d| d.val.clone()).collect();
                if let Ok(k) = vs.iter().map(|v| self.to_t(v, 64)).collect::<R<Vec<T>>>() {
                    out.push(k);
                }
            }
        }
        out
    }
    /// Cut: name the mask coefficients of a ciphertext and restate its body relative to them,
    /// b = A*s + simplify(b - a*s) with A := a. An identity, whatever a and b are.
    pub fn cut_pair(&mut self, a: &[T], b: &[T]) -> Option<(Vec<T>, Vec<T>)> {
        let n = a.len();
        let len = |e: &Exec, v: &[T]| v.iter().map(|t| e.ts.terms[*t as usize].p.len()).sum::<usize>();
        let before = len(self, b) + len(self, a);
        for s in self.keys(n) {
            let mut ph = vec![];
            for i in 0..n {
                let mut t = b[i];
                for j in 0..n {
                    // a_j * s_k with j + k = i (mod n, negacyclic)
                    let (k, neg) = if j <= i { (i - j, false) } else { (i + n - j, true) };
                    let p = self.ts.mul(a[j], s[k]);
                    t = if neg { self.ts.add(t, p) } else { self.ts.sub(t, p) };
                }
                let t = self.known_subst(t);
                let t = self.ts.expand(t, true);
                ph.push(self.known_subst(t));
            }
            if 3 * len(self, &ph) > before && len(self, &ph) > 4 * n {
                continue;
            }
            let na: Vec<T> = a.iter().map(|t| self.ts.cut(*t)).collect();
            let mut nb = vec![];
            for i in 0..n {
                let mut t = ph[i];
                for j in 0..n {
                    let (k, neg) = if j <= i { (i - j, false) } else { (i + n - j, true) };
                    let p = self.ts.mul(na[j], s[k]);
                    t = if neg { self.ts.sub(t, p) } else { self.ts.add(t, p) };
                }
                nb.push(t);
            }
            self.cut_key = s;
            return Some((na, nb));
        }
        None
    }
    pub fn want_branch(&mut self, t: T) -> R<bool> {
        self.branch(t)
    }
    #[allow(dead_code)]
    fn unused(&self) -> Flow {
        let _ = Flow::Jump;
        Flow::Next
    }
}
