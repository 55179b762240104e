//! Lazy reader for textual LLVM IR (as printed by rustc --emit=llvm-ir, one file per crate).
//! Files are indexed by line; a function body is parsed when it is first called.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
    Func,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem on {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => (self.size() * 8) as u32,
        }
    }
}

/// Constant initialisers.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Cst)>>),
    Sym(Rc<str>),
    Gep(Ty, Box<Cst>, Vec<i64>),
    Cast(Box<Cst>),
    Bin(u8, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Cst, Ty),
    /// resolved constant (filled by the executor)
    V(crate::exec::Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum GepStep {
    Off(i64),
    Scale(u32, u64, u32), // operand index in ops, element size, bits of index
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca(u32, u64, u64),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, Vec<GepStep>, Vec<Opd>),
    Bin(u32, Bin, Ty, Opd, Opd),
    Cmp(u32, Pred, Ty, Opd, Opd),
    FCmp(u32, u8, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Cast(u32, Cast, Ty, Ty, Opd),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Call { dst: Option<u32>, callee: Opd, name: Option<Rc<str>>, args: Vec<(Ty, Opd)>, ret: Ty, cache: std::cell::Cell<u32> },
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElt(u32, Opd, Opd),
    InsertElt(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<i64>),
    Rmw(u32, u8, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Opd, u32)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
}

pub struct Module {
    pub path: String,
    pub text: &'static str,
    pub types: HashMap<&'static str, &'static str>,
    pub tycache: std::cell::RefCell<HashMap<&'static str, Ty>>,
    pub funcs: HashMap<&'static str, usize>,   // name -> byte offset of define line
    pub pretty: HashMap<&'static str, &'static str>,
    pub globals: HashMap<&'static str, &'static str>, // name -> rest of line
    pub local: std::collections::HashSet<&'static str>,
    pub aliases: HashMap<&'static str, &'static str>,
}

fn sym_name<'a>(s: &'a str) -> (&'a str, &'a str) {
    // s starts after '@' or '%'
    if s.as_bytes()[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], &s[e + 1..])
    } else {
        let e = s
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
            .unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}")).into_boxed_str());
        let mut m = Module {
            path: path.to_string(),
            text,
            types: HashMap::new(),
            tycache: Default::default(),
            funcs: HashMap::new(),
            pretty: HashMap::new(),
            globals: HashMap::new(),
            local: Default::default(),
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut pos = 0usize;
        let mut comment: &'static str = "";
        while pos < b.len() {
            let e = match text[pos..].find('\n') {
                Some(x) => pos + x,
                None => b.len(),
            };
            let line = &text[pos..e];
            match b[pos] {
                b'd' if line.starts_with("define") => {
                    let at = line.find('@').unwrap();
                    let head = &line[..at];
                    let (name, _) = sym_name(&line[at + 1..]);
                    m.funcs.insert(name, pos);
                    if !comment.is_empty() {
                        m.pretty.insert(name, comment);
                    }
                    if head.contains(" internal ") || head.contains(" private ") {
                        m.local.insert(name);
                    }
                    comment = "";
                    // skip the body
                    if let Some(x) = text[e..].find("\n}") {
                        pos = e + x + 3;
                        continue;
                    }
                }
                b';' => {
                    if !line.starts_with("; Function Attrs") {
                        comment = line[1..].trim();
                    }
                }
                b'%' => {
                    let (name, rest) = sym_name(&line[1..]);
                    if let Some(r) = rest.strip_prefix(" = type ") {
                        m.types.insert(name, r);
                    }
                }
                b'@' => {
                    let (name, rest) = sym_name(&line[1..]);
                    let rest = rest.strip_prefix(" = ").unwrap_or(rest);
                    if rest.contains(" alias ") || rest.starts_with("alias ") {
                        if let Some(at) = rest.rfind('@') {
                            let (t, _) = sym_name(&rest[at + 1..]);
                            m.aliases.insert(name, t);
                        }
                    } else {
                        let head = &rest[..rest.len().min(40)];
                        if head.starts_with("private") || head.starts_with("internal") {
                            m.local.insert(name);
                        }
                        m.globals.insert(name, rest);
                    }
                    comment = "";
                }
                b'\n' => comment = "",
                _ => {}
            }
            pos = e + 1;
        }
        m
    }

    pub fn named_ty(&self, name: &'static str) -> Ty {
        if let Some(t) = self.tycache.borrow().get(name) {
            return t.clone();
        }
        let body = match self.types.get(name) {
            Some(b) => *b,
            None => return Ty::Opaque,
        };
        let t = if body.starts_with("opaque") { Ty::Opaque } else { Cur::new(self, body).ty() };
        self.tycache.borrow_mut().insert(name, t.clone());
        t
    }

    /// Parse a global's type and initialiser. Returns (type, align, init or None if external).
    pub fn parse_global(&self, name: &str) -> (Ty, u64, Option<Cst>) {
        let rest = self.globals[name];
        let mut c = Cur::new(self, rest);
        let mut external = false;
        loop {
            c.ws();
            let w = c.peek_word();
            match w {
                "global" | "constant" => {
                    c.word();
                    break;
                }
                "external" | "extern_weak" => {
                    external = true;
                    c.word();
                }
                "" => panic!("global {name}: {rest}"),
                _ => {
                    c.word();
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
            }
        }
        let ty = c.ty();
        if external {
            return (ty, 16, None);
        }
        let init = c.cst(&ty);
        let mut align = ty.align();
        c.ws();
        let r = c.rest();
        if let Some(i) = r.find("align ") {
            let n: String = r[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            align = n.parse().unwrap_or(align);
        }
        (ty, align, Some(init))
    }

    pub fn parse_func(&self, modidx: usize, name: &str) -> Func {
        let off = self.funcs[name];
        let end = off + self.text[off..].find("\n}").unwrap();
        let body = &self.text[off..end];
        let pretty = self.pretty.get(name).copied().unwrap_or(name).to_string();
        FnParser::new(self, modidx, name, pretty, body).run()
    }
}

pub struct Cur {
    m: *const Module,
    s: &'static str,
    p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl Cur {
    pub fn new(m: &Module, s: &'static str) -> Cur {
        Cur { m, s, p: 0 }
    }
    fn m(&self) -> &Module {
        unsafe { &*self.m }
    }
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n') {
            self.p += 1;
        }
    }
    fn rest(&self) -> &'static str {
        &self.s[self.p..]
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let r = self.rest();
            panic!("expected {t:?} at {:?} in {}", &r[..r.len().min(120)], &self.s[..self.s.len().min(300)]);
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let b = self.s.as_bytes();
        let mut e = self.p;
        while e < b.len() && is_word(b[e]) {
            e += 1;
        }
        &self.s[self.p..e]
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> i64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("number expected: {w:?} in {}", self.s))
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.peek() != b'"' {
                        self.p += 1;
                    }
                }
                0 => panic!("eof in parens"),
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                return;
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'%' => {
                let (n, r) = sym_name(&self.s[self.p + 1..]);
                self.p = self.s.len() - r.len();
                let n: &'static str = n;
                self.m().named_ty(n)
            }
            b'[' => {
                self.p += 1;
                let n = self.num() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.p += 1;
                let f = self.ty_list("}");
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.p += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.p += 1;
                    let f = self.ty_list("}");
                    self.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u64;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat("addrspace(") {
                            self.num();
                            self.expect(")");
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "half" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    "x86_fp80" => Ty::Int(80),
                    "metadata" | "label" | "token" => Ty::Void,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => {
                        let r = self.rest();
                        panic!("type expected, got {w:?} before {:?} in {}", &r[..r.len().min(80)], &self.s[..self.s.len().min(200)])
                    }
                }
            }
        };
        // function type suffix
        if self.rest().starts_with(" (") && !matches!(t, Ty::Func) {
            // only used in call instructions with vararg callee: "i32 (ptr, ...)"
            let save = self.p;
            self.ws();
            let r = self.rest();
            if let Some(e) = r.find(')') {
                let inner = &r[1..e];
                if inner.contains("...") && !inner.contains('%') && !inner.contains('@') {
                    self.p += e + 1;
                    return t;
                }
            }
            self.p = save;
        }
        t
    }
    fn ty_list(&mut self, close: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(close) {
                return v;
            }
            self.expect(",");
        }
    }
    /// Skip parameter/return attributes in front of a value or type.
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                // string attribute
                self.p += 1;
                while self.peek() != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.eat("=") {
                    self.expect("\"");
                    while self.peek() != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                continue;
            }
            let w = self.peek_word();
            match w {
                "align" => {
                    self.word();
                    self.ws();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.num();
                    }
                }
                "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg"
                | "nocapture" | "nofree" | "returned" | "immarg" | "nest" | "writable" | "dead_on_unwind" | "dead_on_return"
                | "sret" | "byval" | "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "initializes"
                | "swiftself" | "noext" | "allocalign" | "allocptr" | "noalias_addrspace" | "nofpclass" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        self.ws();
        if matches!(ty, Ty::F64 | Ty::F32) && self.peek() == b'+' {
            self.p += 1;
        }
        match self.peek() {
            b'@' => {
                let (n, r) = sym_name(&self.s[self.p + 1..]);
                self.p = self.s.len() - r.len();
                return Cst::Sym(n.into());
            }
            b'[' | b'{' => {
                let close = if self.peek() == b'[' { "]" } else { "}" };
                self.p += 1;
                return self.cst_list(close);
            }
            b'<' => {
                self.p += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.p += 1;
                    let r = self.cst_list("}");
                    self.expect(">");
                    return r;
                }
                return self.cst_list(">");
            }
            b'c' if self.rest().starts_with("c\"") => {
                self.p += 2;
                let b = self.s.as_bytes();
                let mut v = vec![];
                while b[self.p] != b'"' {
                    if b[self.p] == b'\\' {
                        if b[self.p + 1] == b'\\' {
                            v.push(b'\\');
                            self.p += 2;
                            continue;
                        }
                        v.push(u8::from_str_radix(&self.s[self.p + 1..self.p + 3], 16).unwrap());
                        self.p += 3;
                    } else {
                        v.push(b[self.p]);
                        self.p += 1;
                    }
                }
                self.p += 1;
                return Cst::Bytes(Rc::new(v));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Cst::Int(1),
            "false" => Cst::Int(0),
            "null" => Cst::Int(0),
            "undef" | "poison" => Cst::Undef,
            "zeroinitializer" => Cst::Zero,
            "splat" => {
                self.expect("(");
                let t = self.ty();
                let v = self.cst(&t);
                self.expect(")");
                if let Ty::Vec(n, _) = ty {
                    Cst::Agg(Rc::new((0..*n).map(|_| (t.clone(), v.clone())).collect()))
                } else {
                    panic!("splat")
                }
            }
            "getelementptr" => {
                while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.word();
                    self.ws();
                    if self.peek() == b'(' && self.s[self.p..].starts_with("(-") {
                        self.skip_parens();
                    }
                }
                self.expect("(");
                let t = self.ty();
                self.expect(",");
                let pt = self.ty();
                let b = self.cst(&pt);
                let mut idx = vec![];
                while self.eat(",") {
                    let it = self.ty();
                    match self.cst(&it) {
                        Cst::Int(v) => idx.push(v as i64),
                        Cst::Zero => idx.push(0),
                        x => panic!("gep const index {x:?}"),
                    }
                }
                self.expect(")");
                Cst::Gep(t, Box::new(b), idx)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                self.expect("(");
                let t = self.ty();
                let v = self.cst(&t);
                self.expect("to");
                self.ty();
                self.expect(")");
                Cst::Cast(Box::new(v))
            }
            "add" | "sub" | "xor" => {
                while matches!(self.peek_word(), "nuw" | "nsw") {
                    self.word();
                }
                self.expect("(");
                let t = self.ty();
                let a = self.cst(&t);
                self.expect(",");
                let t2 = self.ty();
                let b = self.cst(&t2);
                self.expect(")");
                Cst::Bin(if w == "add" { 0 } else if w == "sub" { 1 } else { 2 }, Box::new(a), Box::new(b))
            }
            "asm" => Cst::Undef,
            _ => Cst::Int(parse_num(w, ty)),
        }
    }
    fn cst_list(&mut self, close: &str) -> Cst {
        let mut v = vec![];
        if self.eat(close) {
            return Cst::Agg(Rc::new(v));
        }
        loop {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            if self.eat(close) {
                return Cst::Agg(Rc::new(v));
            }
            self.expect(",");
        }
    }
}

fn parse_num(w: &str, ty: &Ty) -> u128 {
    match ty {
        Ty::F64 | Ty::F32 => {
            let f = if let Some(h) = w.strip_prefix("0x") {
                let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float const {w}"));
                f64::from_bits(b)
            } else if let Some(h) = w.strip_prefix("f0x") {
                let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float const {w}"));
                if *ty == Ty::F32 {
                    f32::from_bits(b as u32) as f64
                } else {
                    f64::from_bits(b)
                }
            } else {
                // note: words do not contain '+', exponent handled by caller
                match w.trim_start_matches('+') {
                    "qnan" => f64::NAN,
                    "-qnan" => -f64::NAN,
                    w => w.parse::<f64>().unwrap_or_else(|_| panic!("float const {w}")),
                }
            };
            if *ty == Ty::F64 {
                f.to_bits() as u128
            } else {
                (f as f32).to_bits() as u128
            }
        }
        _ => {
            if let Some(h) = w.strip_prefix("0x") {
                return u128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0);
            }
            let v: i128 = match w.parse::<i128>() {
                Ok(v) => v,
                Err(_) => w.parse::<u128>().unwrap_or_else(|_| panic!("int const {w:?}")) as i128,
            };
            let n = ty.bits();
            if n >= 128 {
                v as u128
            } else {
                (v as u128) & ((1u128 << n) - 1)
            }
        }
    }
}

struct FnParser<'a> {
    m: &'a Module,
    modidx: usize,
    name: String,
    pretty: String,
    body: &'static str,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
}

impl<'a> FnParser<'a> {
    fn new(m: &'a Module, modidx: usize, name: &str, pretty: String, body: &'static str) -> Self {
        FnParser { m, modidx, name: name.to_string(), pretty, body, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Opd {
        c.ws();
        if c.peek() == b'%' {
            let (n, r) = sym_name(&c.s[c.p + 1..]);
            c.p = c.s.len() - r.len();
            Opd::R(self.reg(n))
        } else {
            // floats in exponent form contain '+'
            if matches!(ty, Ty::F64 | Ty::F32) {
                c.ws();
                let r = c.rest();
                let e = r.find(|ch: char| matches!(ch, ',' | ' ' | ')' | '\n' | ']' | '}' | '>')).unwrap_or(r.len());
                let w = &r[..e];
                if w.starts_with(|ch: char| ch.is_ascii_digit() || ch == '-' || ch == '+') {
                    c.p += e;
                    return Opd::C(Cst::Int(parse_num(w, ty)), ty.clone());
                }
            }
            let k = c.cst(ty);
            Opd::C(k, ty.clone())
        }
    }
    fn tyval(&mut self, c: &mut Cur) -> (Ty, Opd) {
        let t = c.ty();
        c.skip_attrs();
        let v = self.val(c, &t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.ws();
        c.expect("%");
        let (n, r) = sym_name(&c.s[c.p..]);
        c.p = c.s.len() - r.len();
        *self.blocks.get(n).unwrap_or_else(|| panic!("label {n} in {}", self.name))
    }
    fn run(mut self) -> Func {
        let mut lines = self.body.split('\n');
        let header = lines.next().unwrap();
        // params
        let at = header.find('@').unwrap();
        let (_, r) = sym_name(&header[at + 1..]);
        let mut c = Cur::new(self.m, r);
        c.expect("(");
        let mut params = vec![];
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")");
                    break;
                }
                let t = c.ty();
                c.skip_attrs();
                c.ws();
                c.expect("%");
                let (n, rr) = sym_name(&c.s[c.p..]);
                c.p = c.s.len() - rr.len();
                let rg = self.reg(n);
                params.push((rg, t));
                if c.eat(")") {
                    break;
                }
                c.expect(",");
            }
        }
        // return type: last type in head
        let ret = Ty::Void;
        // pass 1: labels
        let lines: Vec<&'static str> = lines.collect();
        let mut first = true;
        for l in &lines {
            if l.is_empty() || l.starts_with(' ') || l.starts_with(';') || l.starts_with('\t') {
                if first && l.starts_with("  ") {
                    // unnamed entry block
                    self.blocks.insert("%entry%", 0);
                    first = false;
                }
                continue;
            }
            if l.starts_with('}') {
                continue;
            }
            // label line
            let name = if l.as_bytes()[0] == b'"' {
                let e = l[1..].find('"').unwrap() + 1;
                &l[1..e]
            } else {
                let e = l.find(':').unwrap_or_else(|| panic!("label line {l}"));
                &l[..e]
            };
            let k = self.blocks.len() as u32;
            self.blocks.insert(name, k);
            first = false;
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur = Block { phis: vec![], ins: vec![] };
        let mut started = false;
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if !l.starts_with(' ') && !l.starts_with('\t') {
                if started {
                    blocks.push(std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![] }));
                }
                started = true;
                continue;
            }
            started = true;
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            // multi-line switch
            let mut full: &'static str = t;
            if t.starts_with("switch ") && !t.contains(']') {
                let start = t.as_ptr() as usize - self.body.as_ptr() as usize;
                let e = self.body[start..].find(']').unwrap() + start + 1;
                full = &self.body[start..e];
                while !lines[i].trim_start().starts_with(']') {
                    i += 1;
                }
                i += 1;
            }
            self.ins(full, &mut cur);
        }
        if started {
            blocks.push(cur);
        }
        Func { name: self.name, pretty: self.pretty, module: self.modidx, nregs: self.regs.len() as u32, params, ret, blocks }
    }

    fn ins(&mut self, l: &'static str, blk: &mut Block) {
        let mut c = Cur::new(self.m, l);
        let mut dst = None;
        if c.peek() == b'%' {
            let (n, r) = sym_name(&l[1..]);
            dst = Some(self.reg(n));
            c.p = l.len() - r.len();
            c.expect("=");
        }
        let mut op = c.word();
        if matches!(op, "tail" | "notail" | "musttail") {
            op = c.word();
        }
        let d = dst.unwrap_or(u32::MAX);
        let ins = match op {
            "alloca" => {
                let t = c.ty();
                let mut n = 1;
                let mut al = t.align();
                while c.eat(",") {
                    if c.eat_word("align") {
                        al = c.num() as u64;
                    } else {
                        let (_, v) = self.tyval(&mut c);
                        if let Opd::C(Cst::Int(k), _) = v {
                            n = k as u64;
                        } else {
                            panic!("dynamic alloca")
                        }
                    }
                }
                Ins::Alloca(d, t.size() * n, al.max(1))
            }
            "load" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let t = c.ty();
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                Ins::Load(d, t, p)
            }
            "store" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                    c.word();
                }
                let mut t = c.ty();
                c.expect(",");
                let (_, base) = self.tyval(&mut c);
                let mut steps = vec![];
                let mut ops = vec![];
                let mut first = true;
                while c.eat(",") {
                    let (it, iv) = self.tyval(&mut c);
                    let (es, nt) = if first {
                        (t.size(), t.clone())
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Opd::C(Cst::Int(k), _) => *k as usize,
                                    _ => panic!("gep struct index"),
                                };
                                steps.push(GepStep::Off(t.field_off(k) as i64));
                                let nt = t.elem(k);
                                t = nt;
                                continue;
                            }
                            _ => {
                                let e = t.elem(0);
                                (e.size(), e)
                            }
                        }
                    };
                    first = false;
                    t = nt;
                    match &iv {
                        Opd::C(Cst::Int(k), it) => {
                            let n = it.bits();
                            let sk = if n < 128 && (*k >> (n - 1)) & 1 == 1 { (*k as i128) - (1i128 << n) } else { *k as i128 };
                            steps.push(GepStep::Off((sk as i64).wrapping_mul(es as i64)));
                        }
                        _ => {
                            steps.push(GepStep::Scale(ops.len() as u32, es, it.bits()));
                            ops.push(iv);
                        }
                    }
                }
                // merge constant offsets
                let mut merged: Vec<GepStep> = vec![];
                let mut off = 0i64;
                for s in steps {
                    match s {
                        GepStep::Off(o) => off = off.wrapping_add(o),
                        s => merged.push(s),
                    }
                }
                if off != 0 {
                    merged.push(GepStep::Off(off));
                }
                Ins::Gep(d, base, merged, ops)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd"
            | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(
                    c.peek_word(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                ) {
                    c.word();
                }
                let b = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                let t = c.ty();
                let a = self.val(&mut c, &t);
                c.expect(",");
                let bb = self.val(&mut c, &t);
                Ins::Bin(d, b, t, a, bb)
            }
            "fneg" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    c.word();
                }
                let t = c.ty();
                let a = self.val(&mut c, &t);
                Ins::FNeg(d, t, a)
            }
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {x}"),
                };
                let t = c.ty();
                let a = self.val(&mut c, &t);
                c.expect(",");
                let b = self.val(&mut c, &t);
                Ins::Cmp(d, p, t, a, b)
            }
            "fcmp" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    c.word();
                }
                // encode: bit0 lt, bit1 eq, bit2 gt, bit3 unordered-true
                let p = match c.word() {
                    "false" => 0,
                    "oeq" => 2,
                    "ogt" => 4,
                    "oge" => 6,
                    "olt" => 1,
                    "ole" => 3,
                    "one" => 5,
                    "ord" => 7,
                    "ueq" => 8 | 2,
                    "ugt" => 8 | 4,
                    "uge" => 8 | 6,
                    "ult" => 8 | 1,
                    "ule" => 8 | 3,
                    "une" => 8 | 5,
                    "uno" => 8,
                    "true" => 15,
                    x => panic!("fpred {x}"),
                };
                let t = c.ty();
                let a = self.val(&mut c, &t);
                c.expect(",");
                let b = self.val(&mut c, &t);
                Ins::FCmp(d, p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext"
            | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(c.peek_word(), "nneg" | "nuw" | "nsw" | "fast" | "contract") {
                    c.word();
                }
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" | "addrspacecast" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                let (t, v) = self.tyval(&mut c);
                c.expect("to");
                let t2 = c.ty();
                Ins::Cast(d, k, t, t2, v)
            }
            "select" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    c.word();
                }
                let (ct, cv) = self.tyval(&mut c);
                c.expect(",");
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, b) = self.tyval(&mut c);
                Ins::Select(d, t, cv, a, b, matches!(ct, Ty::Vec(..)))
            }
            "extractvalue" => {
                let (_, v) = self.tyval(&mut c);
                let mut idx = vec![];
                while c.eat(",") {
                    idx.push(c.num() as u32);
                }
                Ins::Extract(d, v, idx)
            }
            "insertvalue" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, e) = self.tyval(&mut c);
                let mut idx = vec![];
                while c.eat(",") {
                    idx.push(c.num() as u32);
                }
                Ins::Insert(d, t, v, e, idx)
            }
            "extractelement" => {
                let (_, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                Ins::ExtractElt(d, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, e) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                Ins::InsertElt(d, t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, b) = self.tyval(&mut c);
                c.expect(",");
                let mt = c.ty();
                let n = if let Ty::Vec(n, _) = mt { n } else { panic!() };
                let mask = match c.cst(&mt) {
                    Cst::Zero => vec![0; n as usize],
                    Cst::Undef => vec![-1; n as usize],
                    Cst::Agg(v) => v.iter().map(|(_, k)| if let Cst::Int(x) = k { *x as i64 } else { -1 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                Ins::Shuffle(d, t, a, b, mask)
            }
            "atomicrmw" => {
                c.eat_word("volatile");
                let k = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "nand" => 4,
                    "or" => 5,
                    "xor" => 6,
                    "max" => 7,
                    "min" => 8,
                    "umax" => 9,
                    "umin" => 10,
                    x => panic!("rmw {x}"),
                };
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, v) = self.tyval(&mut c);
                Ins::Rmw(d, k, t, p, v)
            }
            "cmpxchg" => {
                c.eat_word("weak");
                c.eat_word("volatile");
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, b) = self.tyval(&mut c);
                Ins::CmpXchg(d, t, p, a, b)
            }
            "freeze" => {
                let (_, v) = self.tyval(&mut c);
                Ins::Freeze(d, v)
            }
            "fence" => Ins::Fence,
            "br" => {
                if c.peek_word() == "label" {
                    Ins::Br(self.label(&mut c))
                } else {
                    let (_, v) = self.tyval(&mut c);
                    c.expect(",");
                    let a = self.label(&mut c);
                    c.expect(",");
                    let b = self.label(&mut c);
                    Ins::CondBr(v, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let def = self.label(&mut c);
                c.expect("[");
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = c.ty();
                    let k = match c.cst(&ct) {
                        Cst::Int(k) => k,
                        x => panic!("switch case {x:?}"),
                    };
                    c.expect(",");
                    let b = self.label(&mut c);
                    cases.push((k, b));
                }
                Ins::Switch(t, v, def, cases)
            }
            "ret" => {
                if c.eat_word("void") {
                    Ins::Ret(None)
                } else {
                    let (t, v) = self.tyval(&mut c);
                    Ins::Ret(Some((t, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "phi" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    c.word();
                }
                let t = c.ty();
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let v = self.val(&mut c, &t);
                    c.expect(",");
                    c.ws();
                    c.expect("%");
                    let (n, r) = sym_name(&c.s[c.p..]);
                    c.p = c.s.len() - r.len();
                    let b = self.blocks[n];
                    c.expect("]");
                    inc.push((v, b));
                    if !c.eat(",") {
                        break;
                    }
                }
                blk.phis.push((d, t, inc));
                return;
            }
            "call" => {
                // [fast-math] [cc] [ret attrs] ty callee(args) ...
                loop {
                    let w = c.peek_word();
                    match w {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_nonecc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                        | "reassoc" => {
                            c.word();
                        }
                        _ => break,
                    }
                }
                c.skip_attrs();
                let ret = c.ty();
                // full function type "ty (args)" before callee
                c.ws();
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                c.ws();
                let mut name = None;
                let callee = if c.rest().starts_with("asm") {
                    // inline assembler: skip to args
                    let r = c.rest();
                    let asm_s: Rc<str> = r.into();
                    blk.ins.push(Ins::Unsupported(format!("asm:{}:{}", d as i64, asm_s).into()));
                    if r.contains("\"\", \"~{memory}\"") || r.contains("asm sideeffect \"\"") {
                        blk.ins.pop();
                    }
                    return;
                } else if c.peek() == b'@' {
                    let (n, r) = sym_name(&c.s[c.p + 1..]);
                    c.p = c.s.len() - r.len();
                    name = Some(Rc::<str>::from(n));
                    Opd::C(Cst::Sym(n.into()), Ty::Ptr)
                } else {
                    self.val(&mut c, &Ty::Ptr)
                };
                c.expect("(");
                let mut args = vec![];
                if !c.eat(")") {
                    loop {
                        if c.peek_word() == "metadata" {
                            // skip to end
                            args.clear();
                            break;
                        }
                        let a = self.tyval(&mut c);
                        args.push(a);
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",");
                    }
                }
                if let Some(n) = &name {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || &**n == "llvm.assume" {
                        return;
                    }
                }
                Ins::Call { dst, callee, name, args, ret, cache: std::cell::Cell::new(u32::MAX) }
            }
            _ => Ins::Unsupported(l.into()),
        };
        blk.ins.push(ins);
    }
}
