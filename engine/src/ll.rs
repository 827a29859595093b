//! Lazy parser for textual LLVM IR. Modules are memory mapped and indexed by top-level entity;
//! a function body is parsed the first time it is called.
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

pub type S = &'static [u8];
pub type Ty = u32;
pub type HM<K, V> = HashMap<K, V, crate::expr::BuildHasher>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u16),
    F(u16),
    Ptr,
    Vec(u32, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Opaque,
    Fn(Ty),
}
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub k: TyK,
    pub size: u64,
    pub store: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W([u64; 2]),
    S(u32),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn from_u128(w: u16, v: u128) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W([v as u64, (v >> 64) as u64])
        }
    }
    #[inline]
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(x[0] as u128 | (x[1] as u128) << 64),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

pub const NODST: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IPred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Reg(u32),
    Asm(S),
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Box<[(u32, Opd)]>,
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: u32,
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<Opd>,
    pub tys: Vec<Ty>,
    pub byval: Vec<(u32, u64)>,
    pub normal: Option<u32>, // invoke: edge index to take on return
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    ICmp { p: IPred, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    FCmp { p: &'static str, w: u16, lanes: u32, dst: u32, a: Opd, b: Opd },
    FNeg { w: u16, lanes: u32, dst: u32, a: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, dst: u32, a: Opd },
    Load { ty: Ty, dst: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: u64, terms: Box<[(Opd, u16, u64)]>, lanes: u32 },
    Alloca { dst: u32, size: u64, align: u64, count: Option<Opd> },
    Call(Box<CallI>),
    Br(u32),
    CondBr { c: Opd, t: u32, e: u32 },
    Switch { v: Opd, w: u16, cases: Box<[(u128, u32)]>, def: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Select { ty: Ty, dst: u32, c: Opd, a: Opd, b: Opd, vecc: bool },
    ExtractValue { dst: u32, a: Opd, idx: Box<[u32]> },
    InsertValue { dst: u32, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractElement { dst: u32, a: Opd, i: Opd },
    InsertElement { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, m: Box<[i32]> },
    Rmw { op: RmwOp, w: u16, ty: Ty, dst: u32, p: Opd, v: Opd },
    CmpXchg { w: u16, ty: Ty, dst: u32, p: Opd, c: Opd, n: Opd },
    Copy { dst: u32, a: Opd },
    Nop,
    Bad(String),
}

pub struct Func {
    pub name: S,
    pub id: u32,
    pub module: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub ninst: u64,
    /// a binary search: selections between positions are explored separately
    pub search: bool,
}

pub struct Module {
    pub path: String,
    pub text: S,
    pub types: HashMap<S, usize>,
    pub tcache: HashMap<S, Ty>,
    pub locals: HashMap<S, (bool, usize)>, // internal functions and globals: (is_fn, offset)
    pub extvars: std::collections::HashSet<S>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FState {
    New,
    Builtin(u32),
    Defined,
    Missing,
}
pub struct FnEnt {
    pub name: S,
    pub module: u32, // module in which the reference resolves (u32::MAX: global)
    pub loc: Option<(u32, usize)>,
    pub state: FState,
    pub func: Option<&'static Func>,
    pub calls: u64,
}
pub struct GlobEnt {
    pub name: S,
    pub loc: Option<(u32, usize)>,
    pub align: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Option<Rc<Vec<u8>>>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 16;

pub struct World {
    pub mods: Vec<Module>,
    pub tys: Vec<TyInfo>,
    tmap: HashMap<TyK, Ty>,
    pub ext: HashMap<S, (bool, u32, usize)>, // external definitions
    pub fns: Vec<FnEnt>,
    fnmap: HashMap<(u32, S), u32>,
    pub globs: Vec<GlobEnt>,
    globmap: HashMap<(u32, S), u32>,
    pub builtin: fn(&[u8]) -> Option<u32>,
    pub i8t: Ty,
    pub i64t: Ty,
    pub ptrt: Ty,
    pub voidt: Ty,
    pub reltab: Vec<u64>,
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn map_file(path: &str) -> std::io::Result<S> {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(path)?;
    let len = f.metadata()?.len() as usize;
    if len == 0 {
        return Ok(b"");
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 1, 2, f.as_raw_fd(), 0);
        if p as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(std::slice::from_raw_parts(p, len))
    }
}

fn memchr(t: &[u8], from: usize, c: u8) -> Option<usize> {
    extern "C" {
        fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    }
    if from >= t.len() {
        return None;
    }
    unsafe {
        let b = t.as_ptr().add(from);
        let p = memchr(b, c as i32, t.len() - from);
        if p.is_null() {
            None
        } else {
            Some(p.offset_from(t.as_ptr()) as usize)
        }
    }
}

fn name_at(t: S, i: usize) -> (S, usize) {
    // t[i] is the first char after the sigil
    if t[i] == b'"' {
        let mut j = i + 1;
        while t[j] != b'"' {
            j += 1;
        }
        (&t[i + 1..j], j + 1)
    } else {
        let mut j = i;
        while j < t.len() && (t[j].is_ascii_alphanumeric() || matches!(t[j], b'.' | b'_' | b'$' | b'-')) {
            j += 1;
        }
        (&t[i..j], j)
    }
}

/// What one scan of a module found (used to build the index in parallel).
pub struct Scan {
    path: String,
    text: S,
    types: HashMap<S, usize>,
    locals: HashMap<S, (bool, usize)>,
    ext: Vec<(S, bool, usize, bool)>,
    extvars: std::collections::HashSet<S>,
}
pub fn scan(path: &str) -> std::io::Result<Scan> {
    let text = map_file(path)?;
    let mut m = Scan {
        path: path.to_string(),
        text,
        types: HashMap::new(),
        locals: HashMap::new(),
        ext: vec![],
        extvars: Default::default(),
    };
    let mut p = 0;
    while p < text.len() {
        let eol = memchr(text, p, b'\n').unwrap_or(text.len());
        match text[p] {
            b'd' if text[p..].starts_with(b"define ") => {
                let at = memchr(text, p, b'@').unwrap();
                let (name, _) = name_at(text, at + 1);
                let head = &text[p..at];
                let local = contains(head, b" internal ") || contains(head, b" private ");
                let avail = contains(head, b"available_externally");
                if local {
                    m.locals.insert(name, (true, p));
                } else {
                    m.ext.push((name, true, p, avail));
                }
                // skip the body
                let mut q = eol + 1;
                loop {
                    if q >= text.len() || text[q] == b'}' {
                        break;
                    }
                    match memchr(text, q, b'}') {
                        None => {
                            q = text.len();
                        }
                        Some(r) => {
                            if text[r - 1] == b'\n' {
                                q = r;
                                break;
                            }
                            q = r + 1;
                        }
                    }
                }
                p = memchr(text, q, b'\n').map(|x| x + 1).unwrap_or(text.len());
                continue;
            }
            b'@' => {
                let (name, j) = name_at(text, p + 1);
                let end = (j + 60).min(eol);
                let head = &text[j..end];
                let local = head.starts_with(b" = internal ") || head.starts_with(b" = private ");
                let external = contains(head, b" external ") || contains(head, b" extern_weak ");
                if local {
                    m.locals.insert(name, (false, p));
                } else if !external {
                    m.ext.push((name, false, p, false));
                } else {
                    m.extvars.insert(name);
                }
            }
            b'%' => {
                let (name, j) = name_at(text, p + 1);
                if text[j..].starts_with(b" = type ") {
                    m.types.insert(name, j + 8);
                }
            }
            _ => {}
        }
        p = eol + 1;
    }
    Ok(m)
}
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|x| x == n)
}

impl World {
    pub fn new(builtin: fn(&[u8]) -> Option<u32>) -> World {
        let mut w = World {
            mods: vec![],
            tys: vec![],
            tmap: HashMap::new(),
            ext: HashMap::new(),
            fns: vec![],
            fnmap: HashMap::new(),
            globs: vec![],
            globmap: HashMap::new(),
            builtin,
            i8t: 0,
            i64t: 0,
            ptrt: 0,
            voidt: 0,
            reltab: vec![],
        };
        w.voidt = w.ty(TyK::Void);
        w.i8t = w.ty(TyK::Int(8));
        w.i64t = w.ty(TyK::Int(64));
        w.ptrt = w.ty(TyK::Ptr);
        w
    }
    pub fn load(&mut self, paths: &[String]) -> Result<(), String> {
        let n = paths.len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: Vec<std::sync::Mutex<Option<Scan>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
        let err = std::sync::Mutex::new(None::<String>);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    match scan(&paths[i]) {
                        Ok(x) => *out[i].lock().unwrap() = Some(x),
                        Err(e) => *err.lock().unwrap() = Some(format!("{}: {e}", paths[i])),
                    }
                });
            }
        });
        if let Some(e) = err.into_inner().unwrap() {
            return Err(e);
        }
        let mut weak: Vec<(S, bool, u32, usize)> = vec![];
        for o in out {
            let sc = o.into_inner().unwrap().unwrap();
            let id = self.mods.len() as u32;
            for (name, isf, off, avail) in sc.ext {
                if avail {
                    weak.push((name, isf, id, off));
                } else {
                    self.ext.entry(name).or_insert((isf, id, off));
                }
            }
            self.mods.push(Module {
                path: sc.path,
                text: sc.text,
                types: sc.types,
                tcache: HashMap::new(),
                locals: sc.locals,
                extvars: sc.extvars,
            });
        }
        for (name, isf, id, off) in weak {
            self.ext.entry(name).or_insert((isf, id, off));
        }
        Ok(())
    }

    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.tmap.get(&k) {
            return t;
        }
        let rup = |x: u64, a: u64| x.div_ceil(a) * a;
        let (size, store, align, offs) = match &k {
            TyK::Void | TyK::Label | TyK::Meta | TyK::Opaque | TyK::Fn(_) => (0, 0, 1, vec![]),
            TyK::Int(w) => {
                let st = (*w as u64).div_ceil(8);
                let al = if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                };
                (rup(st, al), st, al, vec![])
            }
            TyK::F(80) => (16, 10, 16, vec![]),
            TyK::F(w) => {
                let s = *w as u64 / 8;
                (s, s, s, vec![])
            }
            TyK::Ptr => (8, 8, 8, vec![]),
            TyK::Vec(n, e) => {
                let bits = match self.tys[*e as usize].k {
                    TyK::Int(w) | TyK::F(w) => w as u64,
                    _ => 64,
                } * *n as u64;
                let st = bits.div_ceil(8);
                let al = st.next_power_of_two();
                (rup(st, al), st, al, vec![])
            }
            TyK::Arr(n, e) => {
                let i = &self.tys[*e as usize];
                (n * i.size, n * i.size, i.align, vec![])
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for t in f {
                    let i = &self.tys[*t as usize];
                    if !packed {
                        o = rup(o, i.align);
                        al = al.max(i.align);
                    }
                    offs.push(o);
                    o += i.size;
                }
                let s = rup(o, al);
                (s, s, al, offs)
            }
        };
        let t = self.tys.len() as Ty;
        self.tys.push(TyInfo { k: k.clone(), size, store, align, offs });
        self.tmap.insert(k, t);
        t
    }
    #[inline]
    pub fn tk(&self, t: Ty) -> &TyK {
        &self.tys[t as usize].k
    }
    pub fn size(&self, t: Ty) -> u64 {
        self.tys[t as usize].size
    }
    /// scalar bit width, lanes (0 = scalar)
    pub fn wl(&self, t: Ty) -> (u16, u32) {
        match self.tk(t) {
            TyK::Int(w) | TyK::F(w) => (*w, 0),
            TyK::Ptr => (64, 0),
            TyK::Vec(n, e) => (self.wl(*e).0, *n),
            _ => (0, 0),
        }
    }
    pub fn zero(&mut self, t: Ty) -> Val {
        match self.tk(t).clone() {
            TyK::Int(w) if w > 64 => Val::W([0, 0]),
            TyK::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            TyK::Arr(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            TyK::Struct(f, _) => {
                let v = f.iter().map(|t| self.zero(*t)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::I(0),
        }
    }

    fn key(&self, m: u32, name: S) -> u32 {
        if m != u32::MAX && self.mods[m as usize].locals.contains_key(name) {
            m
        } else {
            u32::MAX
        }
    }
    fn find(&self, m: u32, name: S) -> Option<(bool, u32, usize)> {
        if m != u32::MAX {
            if let Some(&(f, o)) = self.mods[m as usize].locals.get(name) {
                return Some((f, m, o));
            }
        }
        self.ext.get(name).copied()
    }
    pub fn fn_id(&mut self, m: u32, name: S) -> u32 {
        let k = (self.key(m, name), name);
        if let Some(&i) = self.fnmap.get(&k) {
            return i;
        }
        let mut loc = self.find(m, name);
        // follow aliases
        for _ in 0..4 {
            if let Some((false, mm, off)) = loc {
                let t = self.mods[mm as usize].text;
                let eol = memchr(t, off, b'\n').unwrap_or(t.len());
                let line = &t[off..eol];
                if contains(line, b" alias ") {
                    let mut at = None;
                    let mut q = off + 1;
                    while let Some(x) = memchr(&t[..eol], q, b'@') {
                        at = Some(x);
                        q = x + 1;
                    }
                    if let Some(x) = at {
                        let (n2, _) = name_at(t, x + 1);
                        loc = self.find(mm, n2);
                        continue;
                    }
                }
            }
            break;
        }
        let id = self.fns.len() as u32;
        let state = match (self.builtin)(name) {
            Some(b) => FState::Builtin(b),
            None => match loc {
                Some((true, _, _)) => FState::New,
                _ => FState::Missing,
            },
        };
        self.fns.push(FnEnt {
            name,
            module: k.0,
            loc: loc.map(|(_, m, o)| (m, o)),
            state,
            func: None,
            calls: 0,
        });
        self.fnmap.insert(k, id);
        id
    }
    pub fn fn_addr(id: u32) -> u64 {
        ((FN_BASE + id as u64) << 32) | 16
    }
    /// address of a global (function or variable)
    pub fn sym_addr(&mut self, m: u32, name: S) -> u64 {
        let k = (self.key(m, name), name);
        if let Some(&i) = self.fnmap.get(&k) {
            return Self::fn_addr(i);
        }
        if let Some(&g) = self.globmap.get(&k) {
            return self.glob_addr(g);
        }
        match self.find(m, name) {
            Some((false, mm, off)) => {
                let t = self.mods[mm as usize].text;
                let eol = memchr(t, off, b'\n').unwrap_or(t.len());
                if contains(&t[off..eol.min(off + 400)], b" alias ") {
                    let mut at = None;
                    let mut q = off + 1;
                    while let Some(x) = memchr(&t[..eol], q, b'@') {
                        at = Some(x);
                        q = x + 1;
                    }
                    let (n2, _) = name_at(t, at.unwrap() + 1);
                    if n2 != name {
                        return self.sym_addr(mm, n2);
                    }
                }
                let g = self.new_glob(k, name, Some((mm, off)));
                self.glob_addr(g)
            }
            Some((true, _, _)) => {
                let i = self.fn_id(m, name);
                Self::fn_addr(i)
            }
            None => {
                // declared function or external variable: look at the declaration in this module
                let is_var = self.mods[m as usize].extvars.contains(name);
                if is_var && (self.builtin)(name).is_none() {
                    let g = self.new_glob(k, name, None);
                    self.glob_addr(g)
                } else {
                    let i = self.fn_id(m, name);
                    Self::fn_addr(i)
                }
            }
        }
    }
    fn new_glob(&mut self, k: (u32, S), name: S, loc: Option<(u32, usize)>) -> u32 {
        let g = self.globs.len() as u32;
        let (mut align, mut size, mut constant) = (16u64, 64u64, false);
        if let Some((m, off)) = loc {
            let mut p = Parser::new(m, off);
            p.glob_header(self, &mut constant);
            let t = p.ty(self);
            size = self.size(t);
            align = self.tys[t as usize].align;
            // an explicit "align N" at the end of the line
            let txt = self.mods[m as usize].text;
            let eol = memchr(txt, off, b'\n').unwrap_or(txt.len());
            let line = &txt[off..eol];
            if let Some(i) = (0..line.len().saturating_sub(8)).rev().find(|&i| line[i..].starts_with(b", align ")) {
                let n: String =
                    line[i + 8..].iter().take_while(|c| c.is_ascii_digit()).map(|c| *c as char).collect();
                if let Ok(a) = n.parse::<u64>() {
                    align = a;
                }
            }
        }
        self.globs.push(GlobEnt { name, loc, align, size, constant, init: None });
        self.globmap.insert(k, g);
        g
    }
    pub fn glob_base(&self, g: u32) -> u64 {
        self.globs[g as usize].align.max(16)
    }
    pub fn glob_addr(&self, g: u32) -> u64 {
        ((GLOB_BASE + g as u64) << 32) | self.glob_base(g)
    }
    pub fn glob_init(&mut self, g: u32) -> Rc<Vec<u8>> {
        if let Some(i) = &self.globs[g as usize].init {
            return i.clone();
        }
        let size = self.globs[g as usize].size as usize;
        let mut buf = vec![0u8; size];
        if let Some((m, off)) = self.globs[g as usize].loc {
            let mut p = Parser::new(m, off);
            let mut c = false;
            p.glob_header(self, &mut c);
            let t = p.ty(self);
            p.init_bytes(self, t, &mut buf);
        }
        let r = Rc::new(buf);
        self.globs[g as usize].init = Some(r.clone());
        r
    }
    pub fn get_func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.fns[id as usize].func {
            return Some(f);
        }
        let (m, off) = self.fns[id as usize].loc?;
        let f: &'static Func = Box::leak(Box::new(Parser::new(m, off).function(self, id)));
        self.fns[id as usize].state = FState::Defined;
        self.fns[id as usize].func = Some(f);
        Some(f)
    }
}

pub fn val_bytes(w: &World, t: Ty, v: &Val, out: &mut [u8]) {
    match w.tk(t) {
        TyK::Int(_) | TyK::F(_) | TyK::Ptr => {
            let st = w.tys[t as usize].store as usize;
            let x = v.conc().unwrap_or(0);
            for i in 0..st.min(16) {
                out[i] = (x >> (8 * i)) as u8;
            }
        }
        TyK::Arr(_, e) => {
            let s = w.size(*e) as usize;
            if let Val::A(a) = v {
                for (i, x) in a.iter().enumerate() {
                    val_bytes(w, *e, x, &mut out[i * s..]);
                }
            }
        }
        TyK::Vec(_, e) => {
            let s = w.tys[*e as usize].store as usize;
            if let Val::A(a) = v {
                for (i, x) in a.iter().enumerate() {
                    val_bytes(w, *e, x, &mut out[i * s..]);
                }
            }
        }
        TyK::Struct(f, _) => {
            if let Val::A(a) = v {
                for (i, x) in a.iter().enumerate() {
                    let o = w.tys[t as usize].offs[i] as usize;
                    val_bytes(w, f[i], x, &mut out[o..]);
                }
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------------

struct Parser {
    m: u32,
    t: S,
    p: usize,
    regs: HashMap<S, u32>,
    labels: HashMap<S, u32>,
    nlabels: u32,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$')
}

impl Parser {
    fn new(m: u32, off: usize) -> Parser {
        Parser { m, t: b"", p: off, regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 }
    }
    fn init(&mut self, w: &World) {
        self.t = w.mods[self.m as usize].text;
    }
    fn fail(&self, what: &str) -> ! {
        let a = self.p.saturating_sub(120);
        let e = (self.p + 120).min(self.t.len());
        panic!(
            "IR parse error ({what}) near: {} >>> {}",
            String::from_utf8_lossy(&self.t[a..self.p]),
            String::from_utf8_lossy(&self.t[self.p..e])
        )
    }
    fn ws(&mut self) {
        loop {
            match self.t.get(self.p) {
                Some(b' ') | Some(b'\t') | Some(b'\n') | Some(b'\r') => self.p += 1,
                Some(b';') => {
                    self.p = memchr(self.t, self.p, b'\n').unwrap_or(self.t.len());
                }
                _ => break,
            }
        }
    }
    fn sp(&mut self) {
        while matches!(self.t.get(self.p), Some(b' ') | Some(b'\t')) {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.t.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        let save = self.p;
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            self.p = save;
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn word(&mut self) -> S {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && is_word(self.t[self.p]) {
            self.p += 1;
        }
        &self.t[s..self.p]
    }
    fn peek_word(&mut self) -> S {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, x: &[u8]) -> bool {
        let p = self.p;
        if self.word() == x {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn name(&mut self) -> S {
        let (n, j) = name_at(self.t, self.p);
        self.p = j;
        n
    }
    fn balanced(&mut self) {
        // at '('
        self.need(b'(');
        let mut d = 1;
        while d > 0 {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.eat(b'-');
        let s = self.p;
        let mut v: u128 = 0;
        while self.p < self.t.len() && self.t[self.p].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.t[self.p] - b'0') as u128);
            self.p += 1;
        }
        if s == self.p {
            self.fail("integer");
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn glob_header(&mut self, w: &mut World, constant: &mut bool) {
        self.init(w);
        self.need(b'@');
        self.name();
        self.need(b'=');
        loop {
            let x = self.word();
            match x {
                b"global" => break,
                b"constant" => {
                    *constant = true;
                    break;
                }
                b"" => self.fail("global header"),
                _ => {
                    if self.t.get(self.p) == Some(&b'(') {
                        self.balanced();
                    }
                }
            }
        }
    }
    fn ty(&mut self, w: &mut World) -> Ty {
        let mut t = self.ty0(w);
        // function type suffix
        loop {
            self.sp();
            if self.t.get(self.p) == Some(&b'(') {
                self.balanced();
                t = w.ty(TyK::Fn(t));
            } else {
                return t;
            }
        }
    }
    fn ty0(&mut self, w: &mut World) -> Ty {
        match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.int() as u64;
                if !self.eat_word(b"x") {
                    self.fail("array type");
                }
                let e = self.ty(w);
                self.need(b']');
                w.ty(TyK::Arr(n, e))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_ty(w, true);
                    self.need(b'>');
                    return t;
                }
                let n = self.int() as u32;
                if !self.eat_word(b"x") {
                    self.fail("vector type");
                }
                let e = self.ty(w);
                self.need(b'>');
                w.ty(TyK::Vec(n, e))
            }
            b'{' => self.struct_ty(w, false),
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.named_ty(w, n)
            }
            _ => {
                let x = self.word();
                match x {
                    b"void" => w.voidt,
                    b"ptr" => {
                        if self.eat_word(b"addrspace") {
                            self.balanced();
                        }
                        w.ptrt
                    }
                    b"half" | b"bfloat" => w.ty(TyK::F(16)),
                    b"float" => w.ty(TyK::F(32)),
                    b"double" => w.ty(TyK::F(64)),
                    b"x86_fp80" => w.ty(TyK::F(80)),
                    b"fp128" => w.ty(TyK::F(128)),
                    b"label" => w.ty(TyK::Label),
                    b"metadata" => w.ty(TyK::Meta),
                    b"opaque" | b"token" => w.ty(TyK::Opaque),
                    _ if x.len() > 1 && x[0] == b'i' && x[1..].iter().all(|c| c.is_ascii_digit()) => {
                        let n: u16 = std::str::from_utf8(&x[1..]).unwrap().parse().unwrap();
                        w.ty(TyK::Int(n))
                    }
                    _ => self.fail("type"),
                }
            }
        }
    }
    fn struct_ty(&mut self, w: &mut World, packed: bool) -> Ty {
        self.need(b'{');
        let mut f = vec![];
        if self.peek() != b'}' {
            loop {
                f.push(self.ty(w));
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.need(b'}');
        w.ty(TyK::Struct(f, packed))
    }
    fn named_ty(&mut self, w: &mut World, n: S) -> Ty {
        if let Some(&t) = w.mods[self.m as usize].tcache.get(n) {
            return t;
        }
        let off = match w.mods[self.m as usize].types.get(n) {
            Some(&o) => o,
            None => self.fail("unknown named type"),
        };
        let save = self.p;
        self.p = off;
        let t = self.ty(w);
        self.p = save;
        w.mods[self.m as usize].tcache.insert(n, t);
        t
    }
    /// skip parameter/return attributes; returns a byval size if present
    fn attrs(&mut self, w: &mut World) -> u64 {
        let mut byval = 0;
        loop {
            match self.peek() {
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    if self.eat(b'=') {
                        self.ws();
                        self.p += 1;
                        while self.t[self.p] != b'"' {
                            self.p += 1;
                        }
                        self.p += 1;
                    }
                }
                c if c.is_ascii_lowercase() => {
                    let save = self.p;
                    let x = self.word();
                    match x {
                        b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none"
                        | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"add" | b"sub" | b"xor"
                        | b"trunc" | b"c" | b"splat" | b"asm" | b"addrspacecast" | b"mul" | b"shl" | b"select"
                        | b"icmp" | b"to" | b"void" | b"ptr" | b"float" | b"double" | b"half" | b"x86_fp80" | b"label" | b"metadata" | b"ptrtoaddr" => {
                            self.p = save;
                            return byval;
                        }
                        _ => {}
                    }
                    if x.len() > 1 && x[0] == b'i' && x[1..].iter().all(|c| c.is_ascii_digit()) {
                        self.p = save;
                        return byval;
                    }
                    if x == b"align" {
                        if self.peek() == b'(' {
                            self.balanced();
                        } else {
                            self.int();
                        }
                    } else if x == b"byval" && self.peek() == b'(' {
                        self.p += 1;
                        let t = self.ty(w);
                        self.need(b')');
                        byval = w.size(t).max(1);
                    } else if self.t.get(self.p) == Some(&b'(') {
                        self.balanced();
                    }
                }
                _ => return byval,
            }
        }
    }
    fn reg(&mut self, n: S) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: S) -> u32 {
        if let Some(&l) = self.labels.get(n) {
            return l;
        }
        let l = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n, l);
        l
    }
    fn opd(&mut self, w: &mut World, t: Ty) -> Opd {
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name();
            Opd::R(self.reg(n))
        } else {
            Opd::C(self.cst(w, t))
        }
    }
    fn topd(&mut self, w: &mut World) -> (Ty, Opd) {
        let t = self.ty(w);
        if matches!(w.tk(t), TyK::Meta) {
            // metadata operand: skip up to the closing of this argument
            self.skip_meta();
            return (t, Opd::C(Val::I(0)));
        }
        self.attrs(w);
        let o = self.opd(w, t);
        (t, o)
    }
    fn skip_meta(&mut self) {
        let mut d = 0;
        while self.p < self.t.len() {
            match self.t[self.p] {
                b'(' | b'{' => d += 1,
                b')' | b'}' => {
                    if d == 0 {
                        return;
                    }
                    d -= 1
                }
                b',' if d == 0 => return,
                b'\n' => return,
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn cst(&mut self, w: &mut World, t: Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let n = self.name();
                Val::I(w.sym_addr(self.m, n))
            }
            b'-' | b'0'..=b'9' => {
                match w.tk(t).clone() {
                    TyK::Int(bw) => {
                        let v = self.int();
                        Val::from_u128(bw, v as u128)
                    }
                    TyK::F(fw) => self.fp_lit(fw),
                    _ => self.fail("numeric literal for this type"),
                }
            }
            b'[' | b'{' | b'<' => {
                self.p += 1;
                let mut close = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' {
                    self.p += 1;
                    close = b'}';
                    packed = true;
                }
                let mut v = vec![];
                if self.peek() != close {
                    loop {
                        let et = self.ty(w);
                        v.push(self.cst(w, et));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                }
                self.need(close);
                if packed {
                    self.need(b'>');
                }
                Val::A(Rc::new(v))
            }
            _ => {
                let x = self.word();
                match x {
                    b"true" => Val::I(1),
                    b"false" | b"null" | b"none" => Val::I(0),
                    b"undef" | b"poison" | b"zeroinitializer" => w.zero(t),
                    b"c" if self.t[self.p] == b'"' => {
                        let b = self.cstr();
                        Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()))
                    }
                    b"splat" => {
                        self.need(b'(');
                        let et = self.ty(w);
                        let v = self.cst(w, et);
                        self.need(b')');
                        let n = match w.tk(t) {
                            TyK::Vec(n, _) => *n,
                            _ => self.fail("splat"),
                        };
                        Val::A(Rc::new(vec![v; n as usize]))
                    }
                    b"dso_local_equivalent" | b"no_cfi" => {
                        self.need(b'@');
                        let n = self.name();
                        Val::I(w.sym_addr(self.m, n))
                    }
                    b"getelementptr" => {
                        loop {
                            let ww = self.peek_word();
                            if matches!(ww, b"inbounds" | b"nuw" | b"nusw") {
                                self.word();
                            } else if ww == b"inrange" {
                                self.word();
                                self.balanced();
                            } else {
                                break;
                            }
                        }
                        self.need(b'(');
                        let et = self.ty(w);
                        self.need(b',');
                        let bt = self.ty(w);
                        let base = self.cst(w, bt);
                        let mut a = base.conc().unwrap() as u64;
                        let mut cur = et;
                        let mut first = true;
                        while self.eat(b',') {
                            self.eat_word(b"inrange");
                            let it = self.ty(w);
                            let iv = self.cst(w, it);
                            let bw = w.wl(it).0;
                            let i = crate::expr::sext(iv.conc().unwrap(), bw) as i64;
                            if first {
                                a = a.wrapping_add((i as u64).wrapping_mul(w.size(cur)));
                                first = false;
                            } else {
                                match w.tk(cur).clone() {
                                    TyK::Struct(f, _) => {
                                        a = a.wrapping_add(w.tys[cur as usize].offs[i as usize]);
                                        cur = f[i as usize];
                                    }
                                    TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                        a = a.wrapping_add((i as u64).wrapping_mul(w.size(e)));
                                        cur = e;
                                    }
                                    _ => self.fail("gep const"),
                                }
                            }
                        }
                        self.need(b')');
                        Val::I(a)
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"addrspacecast" | b"zext" | b"ptrtoaddr" => {
                        self.need(b'(');
                        let ft = self.ty(w);
                        let v = self.cst(w, ft);
                        if !self.eat_word(b"to") {
                            self.fail("cast const");
                        }
                        let tt = self.ty(w);
                        self.need(b')');
                        let tw = w.wl(tt).0;
                        let raw = v.conc().unwrap();
                        if x == b"trunc" && tw == 32 && w.wl(ft).0 == 64 {
                            // relative lookup table entry: a difference of addresses
                            let d = raw as u64 as i64;
                            if d != d as i32 as i64 {
                                let i = w.reltab.iter().position(|q| *q == raw as u64).unwrap_or_else(|| {
                                    w.reltab.push(raw as u64);
                                    w.reltab.len() - 1
                                });
                                return Val::I(0x5A00_0000 | i as u64);
                            }
                        }
                        Val::from_u128(tw, raw)
                    }
                    b"add" | b"sub" | b"xor" | b"mul" | b"and" | b"or" | b"shl" => {
                        while matches!(self.peek_word(), b"nuw" | b"nsw") {
                            self.word();
                        }
                        self.need(b'(');
                        let at = self.ty(w);
                        let a = self.cst(w, at).conc().unwrap();
                        self.need(b',');
                        let bt = self.ty(w);
                        let b = self.cst(w, bt).conc().unwrap();
                        self.need(b')');
                        let v = match x {
                            b"add" => a.wrapping_add(b),
                            b"sub" => a.wrapping_sub(b),
                            b"mul" => a.wrapping_mul(b),
                            b"and" => a & b,
                            b"or" => a | b,
                            b"shl" => a << b,
                            _ => a ^ b,
                        };
                        Val::from_u128(w.wl(at).0, v)
                    }
                    _ => self.fail("constant"),
                }
            }
        }
    }
    fn fp_lit(&mut self, fw: u16) -> Val {
        self.ws();
        let s = self.p;
        if self.t[s..].starts_with(b"0x") {
            let mut q = s + 2;
            let mut kind = b' ';
            if matches!(self.t[q], b'K' | b'H' | b'R' | b'L' | b'M') {
                kind = self.t[q];
                q += 1;
            }
            let st = q;
            while self.t[q].is_ascii_hexdigit() {
                q += 1;
            }
            let txt = std::str::from_utf8(&self.t[st..q]).unwrap();
            self.p = q;
            let v = u128::from_str_radix(&txt[..txt.len().min(32)], 16).unwrap_or(0);
            return match (kind, fw) {
                (b' ', 32) => {
                    let b = v as u64;
                    let d = f64::from_bits(b);
                    if d.is_nan() {
                        // keep sign and the top payload bits
                        let s = (b >> 63) as u32;
                        let m = ((b >> 29) & 0x7fffff) as u32;
                        Val::I(((s << 31) | 0x7f80_0000 | m) as u64)
                    } else {
                        Val::I((d as f32).to_bits() as u64)
                    }
                }
                (b' ', 16) => Val::I(crate::expr::f64_to_half(f64::from_bits(v as u64)) as u64),
                _ => Val::from_u128(fw.min(128), v),
            };
        }
        let mut q = s;
        while matches!(self.t[q], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
            q += 1;
        }
        let d: f64 = std::str::from_utf8(&self.t[s..q]).unwrap().parse().unwrap();
        self.p = q;
        match fw {
            64 => Val::I(d.to_bits()),
            32 => Val::I((d as f32).to_bits() as u64),
            16 => Val::I(crate::expr::f64_to_half(d) as u64),
            _ => Val::I(0),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at '"'
        self.p += 1;
        let mut v = vec![];
        while self.t[self.p] != b'"' {
            if self.t[self.p] == b'\\' {
                if self.t[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.t[self.p + 1..self.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                v.push(self.t[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    /// write an initializer of type t straight into bytes
    fn init_bytes(&mut self, w: &mut World, t: Ty, out: &mut [u8]) {
        let c = self.peek();
        match (c, w.tk(t).clone()) {
            (b'c', TyK::Arr(..)) if self.t[self.p + 1] == b'"' => {
                self.p += 1;
                let b = self.cstr();
                out[..b.len()].copy_from_slice(&b);
            }
            (b'[', TyK::Arr(_, e)) => {
                self.p += 1;
                let s = w.size(e) as usize;
                let mut i = 0;
                if self.peek() != b']' {
                    loop {
                        let et = self.ty(w);
                        self.init_bytes(w, et, &mut out[i * s..(i + 1) * s]);
                        i += 1;
                        if !self.eat(b',') {
                            break;
                        }
                    }
                }
                self.need(b']');
            }
            (b'{', TyK::Struct(f, _)) | (b'<', TyK::Struct(f, _)) => {
                self.p += 1;
                let packed = c == b'<';
                if packed {
                    self.need(b'{');
                }
                for (i, _) in f.iter().enumerate() {
                    if i > 0 {
                        self.need(b',');
                    }
                    let et = self.ty(w);
                    let o = w.tys[t as usize].offs[i] as usize;
                    let s = w.size(et) as usize;
                    self.init_bytes(w, et, &mut out[o..o + s]);
                }
                self.need(b'}');
                if packed {
                    self.need(b'>');
                }
            }
            _ => {
                let v = self.cst(w, t);
                val_bytes(w, t, &v, out);
            }
        }
    }

    fn eol(&mut self) {
        self.p = memchr(self.t, self.p, b'\n').unwrap_or(self.t.len());
    }

    fn function(mut self, w: &mut World, id: u32) -> Func {
        self.init(w);
        let start = self.p;
        let at = memchr(self.t, start, b'@').unwrap();
        self.p = at + 1;
        let name = self.name();
        self.need(b'(');
        let mut params = vec![];
        let mut unnamed = 0usize;
        if self.peek() != b')' {
            loop {
                if self.t[self.p..].starts_with(b"...") {
                    self.p += 3;
                    break;
                }
                let t = self.ty(w);
                let _ = t;
                self.attrs(w);
                if self.peek() == b'%' {
                    self.p += 1;
                    let n = self.name();
                    params.push(self.reg(n));
                    if n.iter().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                } else {
                    // unnamed in text
                    let s: S = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                    params.push(self.reg(s));
                    unnamed += 1;
                }
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.need(b')');
        self.eol(); // "{" is the last thing on the define line
        self.p += 1;
        // blocks
        let mut order: Vec<u32> = vec![];
        let mut bodies: HashMap<u32, Vec<Inst>> = HashMap::new();
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>> = HashMap::new();
        let mut edges: Vec<(u32, u32)> = vec![];
        let mut cur: Option<u32> = None;
        let mut ninst = 0;
        loop {
            self.ws();
            if self.t[self.p] == b'}' {
                break;
            }
            // label?
            let save = self.p;
            let is_label = {
                let c = self.t[self.p];
                if c == b'"' {
                    let mut q = self.p + 1;
                    while self.t[q] != b'"' {
                        q += 1;
                    }
                    self.t[q + 1] == b':'
                } else if c == b'%' {
                    false
                } else {
                    let mut q = self.p;
                    while is_word(self.t[q]) || self.t[q] == b'-' {
                        q += 1;
                    }
                    q > self.p && self.t[q] == b':'
                }
            };
            if is_label {
                let n = self.name();
                self.p += 1;
                let l = self.label(n);
                order.push(l);
                bodies.insert(l, vec![]);
                cur = Some(l);
                continue;
            }
            self.p = save;
            if self.t[self.p] == b'#' {
                // debug record
                self.eol();
                continue;
            }
            if cur.is_none() {
                let s: S = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
                let l = self.label(s);
                order.push(l);
                bodies.insert(l, vec![]);
                cur = Some(l);
            }
            let b = cur.unwrap();
            ninst += 1;
            let inst = self.inst(w, b, &mut phis, &mut edges);
            if !matches!(inst, Inst::Nop) {
                bodies.get_mut(&b).unwrap().push(inst);
            }
        }
        // renumber blocks in order
        let mut num: HashMap<u32, u32> = HashMap::new();
        for (i, l) in order.iter().enumerate() {
            num.insert(*l, i as u32);
        }
        let mut es = vec![];
        for (from, to) in edges {
            let mut copies = vec![];
            if let Some(ps) = phis.get(&to) {
                for (dst, inc) in ps {
                    match inc.iter().find(|(l, _)| *l == from) {
                        Some((_, o)) => copies.push((*dst, o.clone())),
                        None => self.fail("phi without incoming edge"),
                    }
                }
            }
            es.push(Edge { to: num[&to], copies: copies.into_boxed_slice() });
        }
        let blocks: Vec<Vec<Inst>> = order.iter().map(|l| bodies.remove(l).unwrap()).collect();
        Func { name, id, module: self.m, blocks, edges: es, nregs: self.regs.len() as u32, params, ninst, search: [&b"search_sorted"[..], b"binary_search"].iter().any(|p| name.windows(p.len()).any(|w| w == *p)) }
    }
    fn edge(&mut self, edges: &mut Vec<(u32, u32)>, from: u32) -> u32 {
        // "label %x"
        if !self.eat_word(b"label") {
            self.fail("label");
        }
        self.need(b'%');
        let n = self.name();
        let to = self.label(n);
        edges.push((from, to));
        (edges.len() - 1) as u32
    }
    #[allow(clippy::type_complexity)]
    fn inst(
        &mut self,
        w: &mut World,
        blk: u32,
        phis: &mut HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>>,
        edges: &mut Vec<(u32, u32)>,
    ) -> Inst {
        let mut dst = NODST;
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name();
            dst = self.reg(n);
            self.need(b'=');
        }
        let mut op = self.word();
        while matches!(op, b"tail" | b"musttail" | b"notail") {
            op = self.word();
        }
        let line_end = memchr(self.t, self.p, b'\n').unwrap_or(self.t.len());
        let r = self.inst2(w, blk, phis, edges, dst, op);
        if matches!(op, b"switch" | b"invoke" | b"landingpad") {
            self.eol();
        } else {
            self.p = line_end;
        }
        r
    }
    #[allow(clippy::type_complexity)]
    fn inst2(
        &mut self,
        w: &mut World,
        blk: u32,
        phis: &mut HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>>,
        edges: &mut Vec<(u32, u32)>,
        dst: u32,
        op: S,
    ) -> Inst {
        let bop = match op {
            b"add" => Some(BinOp::Add),
            b"sub" => Some(BinOp::Sub),
            b"mul" => Some(BinOp::Mul),
            b"udiv" => Some(BinOp::UDiv),
            b"sdiv" => Some(BinOp::SDiv),
            b"urem" => Some(BinOp::URem),
            b"srem" => Some(BinOp::SRem),
            b"shl" => Some(BinOp::Shl),
            b"lshr" => Some(BinOp::LShr),
            b"ashr" => Some(BinOp::AShr),
            b"and" => Some(BinOp::And),
            b"or" => Some(BinOp::Or),
            b"xor" => Some(BinOp::Xor),
            b"fadd" => Some(BinOp::FAdd),
            b"fsub" => Some(BinOp::FSub),
            b"fmul" => Some(BinOp::FMul),
            b"fdiv" => Some(BinOp::FDiv),
            b"frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(bo) = bop {
            self.flags();
            let (t, a) = self.topd(w);
            self.need(b',');
            let b = self.opd(w, t);
            let (bw, lanes) = w.wl(t);
            return Inst::Bin { op: bo, w: bw, lanes, dst, a, b };
        }
        let cop = match op {
            b"trunc" => Some(CastOp::Trunc),
            b"zext" => Some(CastOp::ZExt),
            b"sext" => Some(CastOp::SExt),
            b"ptrtoint" | b"ptrtoaddr" => Some(CastOp::PtrToInt),
            b"inttoptr" => Some(CastOp::IntToPtr),
            b"bitcast" | b"addrspacecast" => Some(CastOp::BitCast),
            b"fptrunc" => Some(CastOp::FPTrunc),
            b"fpext" => Some(CastOp::FPExt),
            b"fptoui" => Some(CastOp::FPToUI),
            b"fptosi" => Some(CastOp::FPToSI),
            b"uitofp" => Some(CastOp::UIToFP),
            b"sitofp" => Some(CastOp::SIToFP),
            _ => None,
        };
        if let Some(co) = cop {
            self.flags();
            let (t, a) = self.topd(w);
            if !self.eat_word(b"to") {
                self.fail("cast");
            }
            let tt = self.ty(w);
            if matches!(co, CastOp::PtrToInt | CastOp::IntToPtr) && w.wl(t) == w.wl(tt) {
                return Inst::Copy { dst, a };
            }
            return Inst::Cast { op: co, from: t, to: tt, dst, a };
        }
        match op {
            b"icmp" => {
                self.flags();
                let p = match self.word() {
                    b"eq" => IPred::Eq,
                    b"ne" => IPred::Ne,
                    b"ugt" => IPred::Ugt,
                    b"uge" => IPred::Uge,
                    b"ult" => IPred::Ult,
                    b"ule" => IPred::Ule,
                    b"sgt" => IPred::Sgt,
                    b"sge" => IPred::Sge,
                    b"slt" => IPred::Slt,
                    b"sle" => IPred::Sle,
                    _ => self.fail("icmp"),
                };
                let (t, a) = self.topd(w);
                self.need(b',');
                let b = self.opd(w, t);
                let (bw, lanes) = w.wl(t);
                Inst::ICmp { p, w: bw, lanes, dst, a, b }
            }
            b"fcmp" => {
                self.flags();
                let pw = self.word();
                let p = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"]
                    .into_iter()
                    .find(|x| x.as_bytes() == pw)
                    .unwrap_or_else(|| self.fail("fcmp"));
                let (t, a) = self.topd(w);
                self.need(b',');
                let b = self.opd(w, t);
                let (bw, lanes) = w.wl(t);
                Inst::FCmp { p, w: bw, lanes, dst, a, b }
            }
            b"fneg" => {
                self.flags();
                let (t, a) = self.topd(w);
                let (bw, lanes) = w.wl(t);
                Inst::FNeg { w: bw, lanes, dst, a }
            }
            b"load" => {
                while matches!(self.peek_word(), b"atomic" | b"volatile") {
                    self.word();
                }
                let ty = self.ty(w);
                self.need(b',');
                let (_, p) = self.topd(w);
                Inst::Load { ty, dst, p }
            }
            b"store" => {
                while matches!(self.peek_word(), b"atomic" | b"volatile") {
                    self.word();
                }
                let (ty, v) = self.topd(w);
                self.need(b',');
                let (_, p) = self.topd(w);
                Inst::Store { ty, v, p }
            }
            b"getelementptr" => {
                loop {
                    let x = self.peek_word();
                    if matches!(x, b"inbounds" | b"nuw" | b"nusw") {
                        self.word();
                    } else {
                        break;
                    }
                }
                let et = self.ty(w);
                self.need(b',');
                let (bt, base) = self.topd(w);
                let mut lanes = w.wl(bt).1;
                let mut off = 0u64;
                let mut terms: Vec<(Opd, u16, u64)> = vec![];
                let mut cur = et;
                let mut first = true;
                loop {
                    self.sp();
                    let save = self.p;
                    if !self.eat(b',') {
                        break;
                    }
                    if self.peek() == b'!' {
                        self.p = save;
                        break;
                    }
                    let (it, iv) = self.topd(w);
                    let (iw, il) = w.wl(it);
                    lanes = lanes.max(il);
                    let scale = if first {
                        first = false;
                        w.size(cur)
                    } else {
                        match w.tk(cur).clone() {
                            TyK::Struct(f, _) => {
                                let i = match &iv {
                                    Opd::C(c) => match c {
                                        Val::A(v) => v[0].conc().unwrap() as usize,
                                        c => c.conc().unwrap() as usize,
                                    },
                                    _ => self.fail("gep struct index"),
                                };
                                off = off.wrapping_add(w.tys[cur as usize].offs[i]);
                                cur = f[i];
                                continue;
                            }
                            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                cur = e;
                                w.size(e)
                            }
                            _ => self.fail("gep type"),
                        }
                    };
                    match &iv {
                        Opd::C(c) if c.conc().is_some() => {
                            let i = crate::expr::sext(c.conc().unwrap(), iw) as i64 as u64;
                            off = off.wrapping_add(i.wrapping_mul(scale));
                        }
                        _ => terms.push((iv, iw, scale)),
                    }
                }
                Inst::Gep { dst, base, off, terms: terms.into_boxed_slice(), lanes }
            }
            b"alloca" => {
                if self.eat_word(b"inalloca") {}
                let t = self.ty(w);
                let mut count = None;
                let mut align = w.tys[t as usize].align;
                loop {
                    self.sp();
                    if self.t[self.p] != b',' {
                        break;
                    }
                    self.p += 1;
                    self.sp();
                    if self.t[self.p] == b'!' {
                        break;
                    }
                    if self.eat_word(b"align") {
                        align = self.int() as u64;
                    } else if self.eat_word(b"addrspace") {
                        self.balanced();
                    } else {
                        let (_, o) = self.topd(w);
                        count = Some(o);
                    }
                }
                Inst::Alloca { dst, size: w.size(t), align, count }
            }
            b"br" => {
                if self.peek_word() == b"label" {
                    let e = self.edge(edges, blk);
                    return Inst::Br(e);
                }
                let (_, c) = self.topd(w);
                self.need(b',');
                let t = self.edge(edges, blk);
                self.need(b',');
                let e = self.edge(edges, blk);
                Inst::CondBr { c, t, e }
            }
            b"switch" => {
                let (t, v) = self.topd(w);
                self.need(b',');
                let def = self.edge(edges, blk);
                self.need(b'[');
                let mut cases = vec![];
                while self.peek() != b']' {
                    let ct = self.ty(w);
                    let cv = self.cst(w, ct).conc().unwrap();
                    self.need(b',');
                    let e = self.edge(edges, blk);
                    cases.push((cv, e));
                }
                self.need(b']');
                let bw = w.wl(t).0;
                Inst::Switch { v, w: bw, cases: cases.into_boxed_slice(), def }
            }
            b"ret" => {
                if self.peek_word() == b"void" {
                    return Inst::Ret(None);
                }
                let (_, v) = self.topd(w);
                Inst::Ret(Some(v))
            }
            b"unreachable" => Inst::Unreachable,
            b"phi" => {
                self.flags();
                let t = self.ty(w);
                let mut inc = vec![];
                loop {
                    self.need(b'[');
                    let v = self.opd(w, t);
                    self.need(b',');
                    self.need(b'%');
                    let n = self.name();
                    let l = self.label(n);
                    self.need(b']');
                    inc.push((l, v));
                    self.sp();
                    if self.t[self.p] != b',' {
                        break;
                    }
                    let save = self.p;
                    self.p += 1;
                    if self.peek() != b'[' {
                        self.p = save;
                        break;
                    }
                }
                phis.entry(blk).or_default().push((dst, inc));
                Inst::Nop
            }
            b"select" => {
                self.flags();
                let (ct, c) = self.topd(w);
                self.need(b',');
                let (ty, a) = self.topd(w);
                self.need(b',');
                let (_, b) = self.topd(w);
                Inst::Select { ty, dst, c, a, b, vecc: w.wl(ct).1 > 0 }
            }
            b"extractvalue" => {
                let (_, a) = self.topd(w);
                let idx = self.idxs();
                Inst::ExtractValue { dst, a, idx }
            }
            b"insertvalue" => {
                let (_, a) = self.topd(w);
                self.need(b',');
                let (_, v) = self.topd(w);
                let idx = self.idxs();
                Inst::InsertValue { dst, a, v, idx }
            }
            b"extractelement" => {
                let (_, a) = self.topd(w);
                self.need(b',');
                let (_, i) = self.topd(w);
                Inst::ExtractElement { dst, a, i }
            }
            b"insertelement" => {
                let (_, a) = self.topd(w);
                self.need(b',');
                let (_, v) = self.topd(w);
                self.need(b',');
                let (_, i) = self.topd(w);
                Inst::InsertElement { dst, a, v, i }
            }
            b"shufflevector" => {
                let (t, a) = self.topd(w);
                self.need(b',');
                let (_, b) = self.topd(w);
                self.need(b',');
                let mt = self.ty(w);
                let n = w.wl(t).1;
                let mn = w.wl(mt).1;
                let m: Vec<i32> = match self.peek() {
                    b'<' => {
                        self.p += 1;
                        let mut v = vec![];
                        loop {
                            self.ty(w);
                            if self.peek().is_ascii_digit() {
                                v.push(self.int() as i32);
                            } else {
                                self.word();
                                v.push(-1);
                            }
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        v
                    }
                    _ => match self.cst(w, mt) {
                        Val::A(v) => v.iter().map(|x| x.conc().unwrap() as i32).collect(),
                        _ => vec![0; mn as usize],
                    },
                };
                Inst::Shuffle { dst, a, b, n, m: m.into_boxed_slice() }
            }
            b"atomicrmw" => {
                self.eat_word(b"volatile");
                let op = match self.word() {
                    b"xchg" => RmwOp::Xchg,
                    b"add" => RmwOp::Add,
                    b"sub" => RmwOp::Sub,
                    b"and" => RmwOp::And,
                    b"or" => RmwOp::Or,
                    b"xor" => RmwOp::Xor,
                    b"nand" => RmwOp::Nand,
                    b"max" => RmwOp::Max,
                    b"min" => RmwOp::Min,
                    b"umax" => RmwOp::UMax,
                    b"umin" => RmwOp::UMin,
                    _ => self.fail("atomicrmw"),
                };
                let (_, p) = self.topd(w);
                self.need(b',');
                let (ty, v) = self.topd(w);
                Inst::Rmw { op, w: w.wl(ty).0, ty, dst, p, v }
            }
            b"cmpxchg" => {
                while matches!(self.peek_word(), b"weak" | b"volatile") {
                    self.word();
                }
                let (_, p) = self.topd(w);
                self.need(b',');
                let (ty, c) = self.topd(w);
                self.need(b',');
                let (_, n) = self.topd(w);
                Inst::CmpXchg { w: w.wl(ty).0, ty, dst, p, c, n }
            }
            b"fence" => Inst::Nop,
            b"freeze" => {
                let (_, a) = self.topd(w);
                Inst::Copy { dst, a }
            }
            b"call" | b"invoke" => self.call(w, blk, edges, dst, op == b"invoke"),
            b"landingpad" => {
                // clauses may follow on their own lines
                self.eol();
                loop {
                    let save = self.p;
                    self.ws();
                    let x = self.peek_word();
                    if matches!(x, b"cleanup" | b"catch" | b"filter") {
                        self.eol();
                    } else {
                        self.p = save;
                        break;
                    }
                }
                Inst::Bad("landingpad".into())
            }
            b"resume" => Inst::Unreachable,
            _ => Inst::Bad(String::from_utf8_lossy(op).into_owned()),
        }
    }
    fn idxs(&mut self) -> Box<[u32]> {
        let mut v = vec![];
        loop {
            self.sp();
            let save = self.p;
            if self.t[self.p] != b',' {
                break;
            }
            self.p += 1;
            if !self.peek().is_ascii_digit() {
                self.p = save;
                break;
            }
            v.push(self.int() as u32);
        }
        v.into_boxed_slice()
    }
    fn flags(&mut self) {
        loop {
            match self.peek_word() {
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp"
                | b"contract" | b"afn" | b"reassoc" | b"samesign" => {
                    self.word();
                }
                _ => return,
            }
        }
    }
    fn call(&mut self, w: &mut World, blk: u32, edges: &mut Vec<(u32, u32)>, dst: u32, invoke: bool) -> Inst {
        self.flags();
        // calling convention and return attributes
        loop {
            let x = self.peek_word();
            match x {
                b"fastcc" | b"coldcc" | b"ccc" | b"preserve_mostcc" | b"preserve_allcc" | b"preserve_nonecc" => {
                    self.word();
                }
                b"cc" => {
                    self.word();
                    self.int();
                }
                _ => break,
            }
        }
        self.attrs(w);
        let mut ret = self.ty(w);
        if let TyK::Fn(r) = w.tk(ret) {
            ret = *r;
        }
        let callee = match self.peek() {
            b'%' => {
                self.p += 1;
                let n = self.name();
                Callee::Reg(self.reg(n))
            }
            b'@' => {
                self.p += 1;
                let n = self.name();
                if n.starts_with(b"llvm.dbg.") || n.starts_with(b"llvm.lifetime.") || n == b"llvm.experimental.noalias.scope.decl" {
                    return Inst::Nop;
                }
                Callee::Fn(w.fn_id(self.m, n))
            }
            _ => {
                if self.eat_word(b"asm") {
                    while matches!(self.peek_word(), b"sideeffect" | b"alignstack" | b"inteldialect" | b"unwind") {
                        self.word();
                    }
                    self.need(b'"');
                    let s = self.p;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    let txt = &self.t[s..self.p];
                    self.p += 1;
                    self.need(b',');
                    self.need(b'"');
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    Callee::Asm(txt)
                } else {
                    let v = self.cst(w, w.ptrt);
                    let a = v.conc().unwrap() as u64;
                    Callee::Fn(((a >> 32) - FN_BASE) as u32)
                }
            }
        };
        self.need(b'(');
        let mut args = vec![];
        let mut tys = vec![];
        let mut byval = vec![];
        if self.peek() != b')' {
            loop {
                let t = self.ty(w);
                if matches!(w.tk(t), TyK::Meta) {
                    self.skip_meta();
                    args.push(Opd::C(Val::I(0)));
                } else {
                    let bv = self.attrs(w);
                    if bv > 0 {
                        byval.push((args.len() as u32, bv));
                    }
                    let o = self.opd(w, t);
                    args.push(o);
                }
                tys.push(t);
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.need(b')');
        let mut normal = None;
        if invoke {
            // "... to label %a\n unwind label %b"
            loop {
                self.ws();
                if self.eat_word(b"to") {
                    break;
                }
                match self.t[self.p] {
                    b'[' => {
                        let mut d = 0;
                        loop {
                            match self.t[self.p] {
                                b'[' => d += 1,
                                b']' => d -= 1,
                                _ => {}
                            }
                            self.p += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                    c if is_word(c) => {
                        self.word();
                        if self.t[self.p] == b'(' {
                            self.balanced();
                        }
                    }
                    _ => self.p += 1,
                }
            }
            normal = Some(self.edge(edges, blk));
            self.ws();
            if !self.eat_word(b"unwind") {
                self.fail("invoke unwind");
            }
        }
        Inst::Call(Box::new(CallI { dst, callee, ret, args, tys, byval, normal }))
    }
}
