//! Path-forking symbolic executor over parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell {
    C(u8),
    S(u32, u8),
    U,
}
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<Cell>,
    pub ro: bool,
    pub heap: bool,
}
#[derive(Clone, Debug)]
pub enum Val {
    B(Bv),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn b(&self) -> Bv {
        match self {
            Val::B(b) => *b,
            _ => panic!("UNSUPPORTED: scalar expected"),
        }
    }
}
pub struct LFunc {
    pub f: Func,
    pub consts: Vec<Val>,
}
#[derive(Clone)]
struct Frame {
    f: Rc<LFunc>,
    bb: u32,
    ip: u32,
    regs: Vec<Option<Val>>,
    allocas: Vec<u64>,
}
#[derive(Clone, Debug)]
pub enum Inp {
    Var(u32, u16),
    Const(u64),
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<Bv>,
    known: Rc<FxMap<u32, bool>>,
    ranges: Rc<FxMap<u32, (u64, u64)>>,
    /// recorded comparisons between terms: a -> (b, strict) for a < b or a <= b
    order: Rc<FxMap<u32, Vec<(Bv, bool)>>>,
    /// known bits of variables (mask, value), their variables, and a stamp that changes with them
    bits: Rc<FxMap<u32, (u64, u64)>>,
    bits_vs: crate::solver::Vs,
    stamp: u64,
    model: Rc<Model>,
    vars: Vec<u16>,
    inputs: Vec<Inp>,
    next: u64,
    steps: u64,
    nchoice: u32,
    expect_panic: bool,
    /// fork at undecided selects and boolean extensions instead of building terms
    fork: bool,
    covers: u64,
}
pub enum Stop {
    Done,
    Kill,
    Violation(String),
    Unsupported(String),
    Budget(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
enum Bi {
    Def(Rc<LFunc>),
    Any,
    Choose,
    Concretize,
    Param,
    Assume,
    Check,
    ExpectPanic,
    Fork,
    Cover,
    Panic(String),
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp(bool),
    Intr(String),
    Missing(String),
}

pub struct Opts {
    pub shard: (u64, u64),
    pub time: f64,
    pub max_steps: u64,
    pub verbose: bool,
    pub concrete: Option<Vec<u64>>,
    pub samples: usize,
    pub params: Vec<u64>,
    pub max_violations: usize,
}

pub struct Exec {
    m: Module,
    funcs: HashMap<String, Bi>,
    gaddr: HashMap<String, u64>,
    gobj: BTreeMap<u64, Rc<Obj>>,
    gpend: BTreeMap<u64, String>,
    faddr: HashMap<String, u64>,
    faddr_rev: HashMap<u64, String>,
    pub solver: Solver,
    work: Vec<State>,
    pub o: Opts,
    t0: Instant,
    pub paths_done: u64,
    pub paths_panic_ok: u64,
    pub paths_killed: u64,
    pub checks: u64,
    pub steps: u64,
    pub forks: u64,
    pub inconclusive: u64,
    pub dbg_seen: Vec<bool>,
    pub fn_seen: BTreeSet<String>,
    pub covers: BTreeMap<u64, u64>,
    pub violations: Vec<(String, Vec<u64>, String)>,
    pub unsupported: u64,
    pub out_of_time: bool,
    rng: u64,
    pub error: Option<String>,
    pub samples: Vec<Vec<u64>>,
    pub max_pc: usize,
    pub prof: HashMap<String, (u64, f64)>,
    /// memo of subst for the stamp in .0
    memo: std::cell::RefCell<(u64, FxMap<u32, Bv>)>,
    stamps: std::cell::Cell<u64>,
}

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}
const GBASE: u64 = 0x1000_0000;
const FBASE: u64 = 0x4000_0000_0000;
const HBASE: u64 = 0x7000_0000_0000;

impl Exec {
    pub fn new(m: Module, o: Opts) -> Exec {
        let mut e = Exec {
            m,
            funcs: HashMap::new(),
            gaddr: HashMap::new(),
            gobj: BTreeMap::new(),
            gpend: BTreeMap::new(),
            faddr: HashMap::new(),
            faddr_rev: HashMap::new(),
            solver: Solver::new(((o.time.min(240.0)) * 1000.0) as u32),
            work: vec![],
            o,
            t0: Instant::now(),
            paths_done: 0,
            paths_panic_ok: 0,
            paths_killed: 0,
            checks: 0,
            steps: 0,
            forks: 0,
            inconclusive: 0,
            dbg_seen: vec![],
            fn_seen: BTreeSet::new(),
            covers: BTreeMap::new(),
            violations: vec![],
            unsupported: 0,
            out_of_time: false,
            rng: 0x9E3779B97F4A7C15,
            error: None,
            samples: vec![],
            max_pc: 0,
            prof: HashMap::new(),
            memo: Default::default(),
            stamps: std::cell::Cell::new(0),
        };
        let mut names: Vec<String> = e.m.globals.keys().cloned().collect();
        names.sort();
        let mut a = GBASE;
        for n in names {
            let g = e.m.globals[&n].clone();
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            let sz = e.size(&g.ty);
            e.gaddr.insert(n.clone(), a);
            e.gpend.insert(a, n);
            a += sz.max(1) + 64;
        }
        let mut fns: Vec<String> = e.m.defs.keys().cloned().chain(e.m.declares.iter().cloned()).collect();
        fns.sort();
        for (i, n) in fns.into_iter().enumerate() {
            let ad = FBASE + 16 * i as u64;
            e.faddr.insert(n.clone(), ad);
            e.faddr_rev.insert(ad, n);
        }
        e
    }
    // ---------- types
    fn rt<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        match t {
            Ty::Named(n) => self.m.types.get(n).unwrap_or_else(|| panic!("type {}", n)),
            _ => t,
        }
    }
    fn align(&self, t: &Ty) -> u64 {
        match self.rt(t) {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => self.align(t),
            Ty::Struct(_, true) => 1,
            Ty::Struct(l, false) => l.iter().map(|t| self.align(t)).max().unwrap_or(1),
            Ty::Vec(..) => self.size(t).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// bytes touched by a load or store
    pub fn ssize(&self, t: &Ty) -> u64 {
        match self.rt(t) {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match self.rt(t) {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let al = self.align(t);
                (b + al - 1) / al * al
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * self.size(t),
            Ty::Struct(l, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for t in l {
                    let al = if *packed { 1 } else { self.align(t) };
                    ma = ma.max(al);
                    o = (o + al - 1) / al * al + self.size(t);
                }
                (o + ma - 1) / ma * ma
            }
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * self.size(t)
                }
            }
            _ => 0,
        }
    }
    fn field_off(&self, l: &[Ty], packed: bool, i: usize) -> u64 {
        let mut o = 0;
        for (j, t) in l.iter().enumerate() {
            let al = if packed { 1 } else { self.align(t) };
            o = (o + al - 1) / al * al;
            if j == i {
                return o;
            }
            o += self.size(t);
        }
        o
    }
    fn width(&self, t: &Ty) -> u16 {
        match self.rt(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("UNSUPPORTED: width of {:?}", t),
        }
    }
    fn zero(&self, t: &Ty) -> Val {
        match self.rt(t) {
            Ty::Int(w) => Val::B(kw(*w, 0)),
            Ty::Ptr | Ty::F64 => Val::B(k(64, 0)),
            Ty::F32 => Val::B(k(32, 0)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(l, _) => Val::A(Rc::new(l.iter().map(|t| self.zero(t)).collect())),
            _ => Val::B(k(1, 0)),
        }
    }
    // ---------- constants
    fn addr_of(&self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) {
            return a;
        }
        if let Some(&a) = self.faddr.get(n) {
            return a;
        }
        if let Some(t) = self.m.aliases.get(n) {
            return self.addr_of(t);
        }
        panic!("UNSUPPORTED: address of {}", n)
    }
    fn cval(&self, t: &Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(w, v) => Val::B(kw(*w, *v)),
            Cst::Null => Val::B(k(64, 0)),
            Cst::Undef(t) | Cst::Zero(t) => self.zero(t),
            Cst::Global(n) => Val::B(k(64, self.addr_of(n))),
            Cst::Agg(v) => {
                let tys: Vec<Ty> = match self.rt(t) {
                    Ty::Arr(n, t) | Ty::Vec(n, t) => vec![(**t).clone(); *n as usize],
                    Ty::Struct(l, _) => l.clone(),
                    x => panic!("agg const of {:?}", x),
                };
                Val::A(Rc::new(v.iter().zip(tys.iter()).map(|(c, t)| self.cval(t, c)).collect()))
            }
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::B(k(8, *x as u64))).collect())),
            Cst::Gep(et, b, idx) => {
                let base = self.cval(&Ty::Ptr, b).b();
                let ix: Vec<(Ty, Val)> = idx.iter().map(|(t, c)| (t.clone(), self.cval(t, c))).collect();
                Val::B(self.gep(et, base, &ix))
            }
            Cst::PtrToInt(c, w) => {
                let b = self.cval(&Ty::Ptr, c).b();
                Val::B(if *w < 64 { extract(b, 0, *w) } else { b })
            }
            Cst::IntToPtr(c) => self.cval(&Ty::Int(64), c),
            Cst::Trunc(c, w) => Val::B(extract(self.cval(&Ty::Int(64), c).b(), 0, *w)),
            Cst::Bin(o, a, b) => {
                let (x, y) = (self.cval(t, a).b(), self.cval(t, b).b());
                Val::B(match o.as_str() {
                    "add" => bin(Op::Add, x, y),
                    "sub" => bin(Op::Sub, x, y),
                    "mul" => bin(Op::Mul, x, y),
                    _ => bin(Op::Xor, x, y),
                })
            }
            Cst::Splat(n, c) => {
                let et = match self.rt(t) {
                    Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                    _ => panic!("splat"),
                };
                let v = self.cval(&et, c);
                Val::A(Rc::new(vec![v; *n as usize]))
            }
        }
    }
    fn gep(&self, et: &Ty, base: Bv, idx: &[(Ty, Val)]) -> Bv {
        let mut off = k(64, 0);
        let mut konst = 0u64;
        let mut cur: Ty = et.clone();
        for (i, (_, v)) in idx.iter().enumerate() {
            let v = v.b();
            let v64 = if v.w < 64 { sext(v, 64) } else { v };
            if i == 0 {
                let sz = self.size(&cur);
                if let Some(c) = v64.c64() {
                    konst = konst.wrapping_add(c.wrapping_mul(sz));
                } else {
                    off = bin(Op::Add, off, bin(Op::Mul, v64, k(64, sz)));
                }
                continue;
            }
            let rt = self.rt(&cur).clone();
            match rt {
                Ty::Struct(l, p) => {
                    let j = v.c64().unwrap() as usize;
                    konst = konst.wrapping_add(self.field_off(&l, p, j));
                    cur = l[j].clone();
                }
                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                    let sz = self.size(&t);
                    if let Some(c) = v64.c64() {
                        konst = konst.wrapping_add(c.wrapping_mul(sz));
                    } else {
                        off = bin(Op::Add, off, bin(Op::Mul, v64, k(64, sz)));
                    }
                    cur = (*t).clone();
                }
                x => panic!("gep into {:?}", x),
            }
        }
        bin(Op::Add, bin(Op::Add, base, off), k(64, konst))
    }
    // ---------- functions
    fn lookup(&mut self, n: &str) -> Bi {
        if let Some(b) = self.funcs.get(n) {
            return b.clone();
        }
        let b = self.resolve_fn(n);
        self.funcs.insert(n.to_string(), b.clone());
        b
    }
    fn resolve_fn(&mut self, n: &str) -> Bi {
        match n {
            "vse_any" => return Bi::Any,
            "vse_choose" => return Bi::Choose,
            "vse_concretize" => return Bi::Concretize,
            "vse_param" => return Bi::Param,
            "vse_assume" => return Bi::Assume,
            "vse_check" => return Bi::Check,
            "vse_expect_panic" => return Bi::ExpectPanic,
            "vse_cover" => return Bi::Cover,
            "vse_fork" => return Bi::Fork,
            "malloc" => return Bi::Malloc,
            "calloc" => return Bi::Calloc,
            "realloc" => return Bi::Realloc,
            "free" => return Bi::Free,
            "posix_memalign" => return Bi::PosixMemalign,
            "memcmp" => return Bi::Memcmp(true),
            "bcmp" => return Bi::Memcmp(false),
            "abort" | "rust_begin_unwind" => return Bi::Panic(n.into()),
            "log2" | "ceil" | "floor" => return Bi::Intr(format!("llvm.{}.f64", n)),
            "memcpy" => return Bi::Intr("llvm.memcpy.".into()),
            "memmove" => return Bi::Intr("llvm.memmove.".into()),
            "memset" => return Bi::Intr("llvm.memset.".into()),
            _ => {}
        }
        if n.starts_with("llvm.") {
            return Bi::Intr(n.into());
        }
        if n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_panic") {
            return Bi::Panic(n.into());
        }
        if let Some(t) = self.m.aliases.get(n).cloned() {
            return self.resolve_fn(&t);
        }
        if let Some(text) = self.m.defs.get(n) {
            let f = parse_func(text);
            let consts = f.consts.iter().map(|(t, c)| self.cval(t, c)).collect();
            return Bi::Def(Rc::new(LFunc { f, consts }));
        }
        Bi::Missing(n.into())
    }
    // ---------- memory
    fn init_global(&mut self, a: u64) {
        if let Some(n) = self.gpend.remove(&a) {
            let g = self.m.globals[&n].clone();
            let sz = self.size(&g.ty);
            let mut o = Obj { base: a, size: sz, data: vec![Cell::C(0); sz as usize], ro: g.konst, heap: false };
            if let Some(c) = &g.init {
                let v = self.cval(&g.ty, c);
                self.put(&mut o, 0, &g.ty, &v);
            }
            self.gobj.insert(a, Rc::new(o));
        }
    }
    fn put(&self, o: &mut Obj, off: usize, t: &Ty, v: &Val) {
        match (self.rt(t), v) {
            (Ty::Arr(_, et), Val::A(l)) => {
                let s = self.size(et) as usize;
                for (i, x) in l.iter().enumerate() {
                    self.put(o, off + i * s, et, x);
                }
            }
            (Ty::Vec(_, et), Val::A(l)) => {
                if **et == Ty::Int(1) {
                    panic!("UNSUPPORTED: store of i1 vector");
                }
                let s = self.size(et) as usize;
                for (i, x) in l.iter().enumerate() {
                    self.put(o, off + i * s, et, x);
                }
            }
            (Ty::Struct(l, p), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let fo = self.field_off(l, *p, i) as usize;
                    self.put(o, off + fo, &l[i], x);
                }
            }
            (_, Val::B(b)) => put_bv(o, off, *b),
            (t, _) => panic!("UNSUPPORTED: put {:?}", t),
        }
    }
    fn get(&self, o: &Obj, off: usize, t: &Ty) -> Val {
        match self.rt(t) {
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                if let (Ty::Vec(..), Ty::Int(1)) = (self.rt(t), &**et) {
                    panic!("UNSUPPORTED: load of i1 vector");
                }
                let s = self.size(et) as usize;
                Val::A(Rc::new((0..*n as usize).map(|i| self.get(o, off + i * s, et)).collect()))
            }
            Ty::Struct(l, p) => {
                Val::A(Rc::new((0..l.len()).map(|i| self.get(o, off + self.field_off(l, *p, i) as usize, &l[i])).collect()))
            }
            t => {
                let w = self.width(t);
                let b = get_bv(o, off, ((w + 7) / 8) as usize);
                Val::B(if b.w > w { extract(b, 0, w) } else { b })
            }
        }
    }
    fn find(&mut self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if let Some((_, o)) = st.mem.range(..=a).next_back() {
            if a <= o.base + o.size {
                return Some(o.clone());
            }
        }
        if a >= GBASE && a < FBASE {
            if let Some((&ga, _)) = self.gpend.range(..=a).next_back() {
                if let Some((&oa, _)) = self.gobj.range(..=a).next_back() {
                    if oa < ga {
                        self.init_global(ga);
                    }
                } else {
                    self.init_global(ga);
                }
            }
            if let Some((_, o)) = self.gobj.range(..=a).next_back() {
                if a <= o.base + o.size {
                    return Some(o.clone());
                }
            }
        }
        None
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size + 64;
        let c = if zero { Cell::C(0) } else { Cell::U };
        st.mem.insert(base, Rc::new(Obj { base, size, data: vec![c; size as usize], ro: false, heap }));
        base
    }
    /// Resolve an access of n bytes: returns (object, offset expression).
    fn resolve(&mut self, st: &mut State, addr: Bv, n: u64, what: &str) -> R<(Rc<Obj>, Bv)> {
        let addr = self.simp(st, addr);
        let a = match addr.c64() {
            Some(a) => a,
            None => st.model.eval(addr) as u64,
        };
        let o = match self.find(st, a) {
            Some(o) if n == 0 || (a >= o.base && a + n <= o.base + o.size) => o,
            _ => return Err(Stop::Violation(format!("memory: {} of {} bytes at {:#x} outside any live object", what, n, a))),
        };
        if addr.k {
            return Ok((o.clone(), k(64, a - o.base)));
        }
        let off = bin(Op::Sub, addr, k(64, o.base));
        let inb = bin(Op::Ule, off, k(64, o.size - n));
        self.constrain(st, inb)?;
        if st.fork && !o.ro {
            let v = self.concretize(st, off)?;
            return Ok((o, k(64, v)));
        }
        Ok((o, off))
    }
    /// candidate offsets: base shift c, index expr, step log2, lo..hi index
    fn candidates(&self, st: &State, off: Bv) -> (u64, Bv, u64, u64, u64) {
        let (mut x, mut c) = (off, 0u64);
        if !off.k {
            let n = node(off);
            if n.op == Op::Add && n.b.k {
                // only split when no wrap-around is possible
                let (_, h) = self.range(st, n.a, 6);
                if h.checked_add(n.b.v).is_some() {
                    x = n.a;
                    c = n.b.v;
                }
            }
        }
        let ones = info(x).ones;
        let s = ones.trailing_zeros().min(12) as u64;
        let (lo, hi) = self.range(st, x, 6);
        (c, x, s, lo >> s, hi >> s)
    }
    fn load_sym(&mut self, st: &mut State, o: &Obj, off: Bv, t: &Ty) -> R<Val> {
        let sz = self.ssize(t);
        let (c, x, s, lo, mut hi) = self.candidates(st, off);
        let maxi = (o.size - sz).saturating_sub(c) >> s;
        hi = hi.min(maxi);
        if hi - lo > 70000 {
            return unsup("symbolic load with too many candidates");
        }
        match self.rt(t).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {}
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                // concretise the address
                let v = self.concretize(st, off)?;
                return Ok(self.get(o, v as usize, t));
            }
            x => return unsup(format!("symbolic load of {:?}", x)),
        }
        let idx = bin(Op::LShr, x, k(64, s));
        let nb = 64 - (hi.leading_zeros() as u16);
        let leaves: Vec<Bv> = (lo..=hi).map(|i| self.get(o, (c + (i << s)) as usize, t).b()).collect();
        Ok(Val::B(mux(idx, nb, 0, lo, hi, &leaves).unwrap()))
    }
    fn load(&mut self, st: &mut State, addr: Bv, t: &Ty) -> R<Val> {
        let sz = self.ssize(t);
        let (o, off) = self.resolve(st, addr, sz, "read")?;
        match off.c64() {
            Some(f) => Ok(self.get(&o, f as usize, t)),
            None => self.load_sym(st, &o, off, t),
        }
    }
    /// make the object writable in this state; the reference is given up first, so that the object is
    /// copied only when another state shares it
    fn own<'a>(&mut self, st: &'a mut State, o: Rc<Obj>) -> R<&'a mut Obj> {
        if o.ro {
            return Err(Stop::Violation("memory: write to constant".into()));
        }
        let base = o.base;
        if !st.mem.contains_key(&base) {
            st.mem.insert(base, o);
        } else {
            drop(o);
        }
        Ok(Rc::make_mut(st.mem.get_mut(&base).unwrap()))
    }
    fn store(&mut self, st: &mut State, addr: Bv, t: &Ty, v: &Val) -> R<()> {
        let sz = self.ssize(t);
        let (o, off) = self.resolve(st, addr, sz, "write")?;
        match off.c64() {
            Some(f) => {
                let e: *const Exec = self;
                let ob = self.own(st, o)?;
                unsafe { (*e).put(ob, f as usize, t, v) };
                Ok(())
            }
            None => {
                let b = match v {
                    Val::B(b) => *b,
                    _ => {
                        let f = self.concretize(st, off)?;
                        let e: *const Exec = self;
                        let ob = self.own(st, o)?;
                        unsafe { (*e).put(ob, f as usize, t, v) };
                        return Ok(());
                    }
                };
                let (c, x, s, lo, mut hi) = self.candidates(st, off);
                let maxi = (o.size - sz).saturating_sub(c) >> s;
                hi = hi.min(maxi);
                if hi - lo > 20000 {
                    return unsup("symbolic store with too many candidates");
                }
                if (1u64 << s) < sz {
                    // overlapping candidates: concretise
                    let f = self.concretize(st, off)?;
                    let ob = self.own(st, o)?;
                    put_bv(ob, f as usize, b);
                    return Ok(());
                }
                let idx = bin(Op::LShr, x, k(64, s));
                let bz = if b.w % 8 != 0 { zext(b, (b.w + 7) / 8 * 8) } else { b };
                let ob = self.own(st, o)?;
                for i in lo..=hi {
                    let f = (c + (i << s)) as usize;
                    let old = get_bv(ob, f, (bz.w / 8) as usize);
                    let nv = ite(bin(Op::Eq, idx, k(64, i)), bz, old);
                    put_bv(ob, f, nv);
                }
                Ok(())
            }
        }
    }
    // ---------- path constraints
    fn range(&self, st: &State, b: Bv, depth: u32) -> (u64, u64) {
        if b.k {
            return (b.v, b.v);
        }
        if b.w > 64 {
            return (0, u64::MAX);
        }
        let i = self.range_i(st, b, depth);
        (i.lo, i.hi)
    }
    fn range_i(&self, st: &State, b: Bv, depth: u32) -> Info {
        if b.k || b.w > 64 {
            return info(b);
        }
        let mut i = info(b);
        if depth > 0 && !st.ranges.is_empty() {
            let n = node(b);
            if n.op != Op::Var && n.op != Op::BigC {
                let d = depth - 1;
                let j = info_of(
                    &n,
                    self.range_i(st, n.a, d),
                    self.range_i(st, n.b, if n.b.k { 0 } else { d }),
                    if n.op == Op::Ite { self.range_i(st, n.c, d) } else { info(n.c) },
                );
                i.lo = i.lo.max(j.lo);
                i.hi = i.hi.min(j.hi);
                i.ones &= j.ones;
            }
        }
        if let Some(&(l, h)) = st.ranges.get(&(b.v as u32)) {
            i.lo = i.lo.max(l);
            i.hi = i.hi.min(h);
        }
        if i.lo > i.hi {
            i.lo = i.hi;
        }
        i
    }
    /// x & (x - 1), x & -x: one path per position of the lowest set bit, if these are few
    fn lowest(&mut self, st: &mut State, p: Bv, q: Bv) -> R<Option<Bv>> {
        if p.k || q.k || p.w > 64 {
            return Ok(None);
        }
        for (x, y) in [(p, q), (q, p)] {
            let n = node(y);
            let clear = n.op == Op::Add && n.a == x && n.b.is(mask(y.w));
            let keep = n.op == Op::Sub && n.a.is(0) && n.b == x;
            if !(clear || keep) {
                continue;
            }
            if let Some((x, b)) = self.split_low(st, x, false)? {
                if b >= x.w as u64 {
                    return Ok(Some(k(x.w, 0)));
                }
                let m = 1u64 << b;
                return Ok(Some(if keep { k(x.w, m) } else { bin(Op::And, x, k(x.w, !m)) }));
            }
        }
        Ok(None)
    }
    /// fork until the lowest (highest) set bit of x is known; None if there are many candidates
    fn split_low(&mut self, st: &mut State, x: Bv, high: bool) -> R<Option<(Bv, u64)>> {
        if x.w > 64 {
            return Ok(None);
        }
        loop {
            let x = self.simp(st, x);
            let i = info(x);
            if i.ones & mask(x.w) == 0 {
                return Ok(Some((x, x.w as u64)));
            }
            let mut free = i.ones & !i.must & mask(x.w);
            if i.must != 0 {
                free &= if high { !mask(64 - i.must.leading_zeros() as u16) } else { mask(i.must.trailing_zeros() as u16) };
            }
            if free == 0 {
                let b = if high { 63 - i.ones.leading_zeros() } else { i.ones.trailing_zeros() };
                return Ok(Some((x, b as u64)));
            }
            if free.count_ones() > 6 {
                return Ok(None);
            }
            let b = if high { 63 - free.leading_zeros() } else { free.trailing_zeros() };
            let e = extract(x, b as u16, 1);
            let before = (st.stamp, st.pc.len());
            if self.decide(st, e, 4).is_some() && self.simp(st, e) == e {
                return Ok(None);
            }
            let lit = if st.model.eval(e) == 1 { e } else { not1(e) };
            self.constrain(st, lit)?;
            if before == (st.stamp, st.pc.len()) {
                // nothing could be learnt about the bit
                return Ok(None);
            }
        }
    }
    /// rewrite with the known bits of this path
    fn simp(&self, st: &State, b: Bv) -> Bv {
        if st.stamp == 0 || b.k {
            return b;
        }
        let mut m = self.memo.borrow_mut();
        if m.0 != st.stamp {
            m.0 = st.stamp;
            m.1.clear();
        }
        subst(b, &st.bits, &st.bits_vs, &mut m.1)
    }
    /// the bits `m` of `e` have the value `v`
    fn learn_bits(&self, st: &mut State, e: Bv, m: u64, v: u64, depth: u32) {
        let m = if e.k || e.w > 64 { 0 } else { m & info(e).ones & !info(e).must & mask(e.w) };
        if m == 0 || depth == 0 {
            return;
        }
        let v = v & m;
        let n = node(e);
        let d = depth - 1;
        match n.op {
            Op::Var => {
                let old = st.bits.get(&(e.v as u32)).copied().unwrap_or((0, 0));
                if old.0 | m == old.0 {
                    return;
                }
                self.sane(st.model.eval(e) as u64 & m == v, "bits");
                let new = (old.0 | m, old.1 | (v & !old.0));
                Rc::make_mut(&mut st.bits).insert(e.v as u32, new);
                st.bits_vs.join(&crate::solver::varset(e));
                self.stamps.set(self.stamps.get() + 1);
                st.stamp = self.stamps.get();
            }
            Op::And => {
                if n.b.k {
                    self.learn_bits(st, n.a, m & n.b.v, v, d);
                } else {
                    self.learn_bits(st, n.a, m & v, v, d);
                    self.learn_bits(st, n.b, m & v, v, d);
                    self.learn_bits(st, n.a, m & !v & info(n.b).must, v, d);
                    self.learn_bits(st, n.b, m & !v & info(n.a).must, v, d);
                }
            }
            Op::Or => {
                self.learn_bits(st, n.a, m & !v, 0, d);
                self.learn_bits(st, n.b, m & !v, 0, d);
                self.learn_bits(st, n.a, m & v & !info(n.b).ones, v, d);
                self.learn_bits(st, n.b, m & v & !info(n.a).ones, v, d);
            }
            Op::Xor if n.b.k => self.learn_bits(st, n.a, m, v ^ n.b.v, d),
            Op::Shl if n.b.k && n.b.v < 64 => self.learn_bits(st, n.a, m >> n.b.v, v >> n.b.v, d),
            Op::LShr if n.b.k && n.b.v < 64 => self.learn_bits(st, n.a, m << n.b.v, v << n.b.v, d),
            Op::ZExt => self.learn_bits(st, n.a, m, v, d),
            Op::Extract if n.a.w <= 64 => self.learn_bits(st, n.a, m << n.b.v, v << n.b.v, d),
            Op::Concat if n.w <= 64 => {
                self.learn_bits(st, n.b, m & mask(n.b.w), v, d);
                self.learn_bits(st, n.a, m >> n.b.w, v >> n.b.w, d);
            }
            Op::Eq | Op::Ult | Op::Ule if n.a.w <= 64 => {
                if v == 1 && n.op == Op::Eq && n.b.k {
                    self.learn_val(st, n.a, n.b.v, d);
                }
                if v == 0 && n.op == Op::Eq && n.b.k {
                    let i = self.range_i(st, n.a, 3);
                    if i.hi.wrapping_sub(i.lo) == 1 && (n.b.v == i.lo || n.b.v == i.hi) {
                        self.learn_val(st, n.a, if i.lo == n.b.v { i.hi } else { i.lo }, d);
                    } else if n.b.v == 0 && i.ones.count_ones() == 1 {
                        self.learn_val(st, n.a, i.ones, d);
                    }
                }
            }
            Op::Ite if n.b.k && n.c.k => {
                let (x, y) = (n.b.v & m == v, n.c.v & m == v);
                if x != y {
                    self.learn_bits(st, n.a, 1, x as u64, d);
                }
            }
            _ => {}
        }
    }
    /// `e` has the value `v`
    fn learn_val(&self, st: &mut State, e: Bv, v: u64, depth: u32) {
        if e.k || e.w > 64 || depth == 0 {
            return;
        }
        let n = node(e);
        let d = depth - 1;
        let w = mask(e.w);
        match n.op {
            Op::Add if n.b.k => self.learn_val(st, n.a, v.wrapping_sub(n.b.v) & w, d),
            Op::Sub if n.a.k => self.learn_val(st, n.b, n.a.v.wrapping_sub(v) & w, d),
            Op::Add | Op::Sub => {
                let (a, b) = (info(n.a), info(n.b));
                // at an end of the range every term is at its end
                let (bl, bh) = if n.op == Op::Add { (b.lo, b.hi) } else { (b.hi, b.lo) };
                let c = |x: u64, y: u64| if n.op == Op::Add { x.wrapping_add(y) } else { x.wrapping_sub(y) } & w;
                let small = a.hi < 1 << 40 && b.hi < 1 << 40 && e.w > 41;
                let fits = small || (n.op == Op::Add && a.hi.checked_add(b.hi).map_or(false, |x| x <= w));
                if fits && v == c(a.lo, bl) {
                    self.learn_val(st, n.a, a.lo, d);
                    self.learn_val(st, n.b, bl, d);
                } else if fits && v == c(a.hi, bh) {
                    self.learn_val(st, n.a, a.hi, d);
                    self.learn_val(st, n.b, bh, d);
                }
            }
            Op::Popcnt if n.a.w <= 64 => {
                let o = info(n.a).ones & mask(n.a.w);
                let must = info(n.a).must;
                if v == must.count_ones() as u64 {
                    self.learn_bits(st, n.a, o & !must, 0, d);
                } else if v == o.count_ones() as u64 {
                    self.learn_bits(st, n.a, o, o, d);
                }
            }
            Op::Cttz if n.a.w <= 64 && v < n.a.w as u64 => {
                self.learn_bits(st, n.a, mask(v as u16 + 1), 1 << v, d);
            }
            Op::Ctlz if n.a.w <= 64 && v < n.a.w as u64 => {
                let top = n.a.w as u64 - 1 - v;
                self.learn_bits(st, n.a, !mask(top as u16), 1 << top, d);
            }
            _ => self.learn_bits(st, e, w, v, depth),
        }
    }
    /// the condition's value if it is known, in fork mode one of both values per path, else the term
    fn settle(&mut self, st: &mut State, c: Bv) -> R<Bv> {
        if c.k {
            return Ok(c);
        }
        Ok(match self.decide(st, c, 3) {
            Some(v) => kb(v),
            None if st.fork => {
                let v = st.model.eval(c) == 1;
                self.constrain(st, if v { c } else { not1(c) })?;
                kb(v)
            }
            None => c,
        })
    }
    /// a <= b (or a < b) follows from recorded comparisons by transitivity
    fn ordered(&self, st: &State, a: Bv, b: Bv, strict: bool) -> bool {
        if st.order.is_empty() || a.k || b.k {
            return a == b && !strict;
        }
        let mut seen: Vec<(Bv, bool)> = vec![(a, false)];
        let mut i = 0;
        while i < seen.len() && i < 200 {
            let (x, s) = seen[i];
            i += 1;
            if x == b && (s || !strict) {
                return true;
            }
            if let Some(l) = st.order.get(&(x.v as u32)) {
                for &(y, t) in l {
                    let t = s || t;
                    if !seen.iter().any(|&(z, u)| z == y && (u || !t)) {
                        seen.push((y, t));
                    }
                }
            }
        }
        false
    }
    fn note_order(&self, st: &mut State, a: Bv, b: Bv, strict: bool) {
        if a.k || b.k || a.w != b.w || st.order.len() > 300 {
            return;
        }
        if !self.ordered(st, a, b, strict) {
            Rc::make_mut(&mut st.order).entry(a.v as u32).or_default().push((b, strict));
        }
    }
    /// everything derived from the path condition has to hold in the path's model
    fn sane(&self, c: bool, what: &str) {
        if !c {
            panic!("UNSUPPORTED: internal: derived {} contradicts the model", what);
        }
    }
    fn decide(&self, st: &State, l: Bv, depth: u32) -> Option<bool> {
        let mut r = self.decide1(st, l, depth);
        if r.is_none() {
            let m = self.simp(st, l);
            if m != l {
                r = self.decide1(st, m, depth);
            }
        }
        if let Some(v) = r {
            self.sane(l.k || self.o.concrete.is_some() || st.model.eval(l) == v as u128, "decision");
        }
        r
    }
    fn decide1(&self, st: &State, l: Bv, depth: u32) -> Option<bool> {
        if l.k {
            return Some(l.v == 1);
        }
        if let Some(&v) = st.known.get(&(l.v as u32)) {
            return Some(v);
        }
        let n = node(l);
        match n.op {
            Op::Xor if n.b.is(1) => self.decide1(st, n.a, depth).map(|x| !x),
            Op::And if n.w == 1 && depth > 0 => {
                let (x, y) = (self.decide1(st, n.a, depth - 1), self.decide1(st, n.b, depth - 1));
                if x == Some(false) || y == Some(false) {
                    Some(false)
                } else if x == Some(true) && y == Some(true) {
                    Some(true)
                } else {
                    None
                }
            }
            Op::Or if n.w == 1 && depth > 0 => {
                let (x, y) = (self.decide1(st, n.a, depth - 1), self.decide1(st, n.b, depth - 1));
                if x == Some(true) || y == Some(true) {
                    Some(true)
                } else if x == Some(false) && y == Some(false) {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Ult | Op::Ule | Op::Eq if n.a.w <= 64 => {
                // negated form known?
                let (al, ah) = self.range(st, n.a, 6);
                let (bl, bh) = self.range(st, n.b, 6);
                match n.op {
                    Op::Ult => {
                        if ah < bl {
                            return Some(true);
                        }
                        if al >= bh {
                            return Some(false);
                        }
                    }
                    Op::Ule => {
                        if ah <= bl {
                            return Some(true);
                        }
                        if al > bh {
                            return Some(false);
                        }
                    }
                    _ => {
                        if ah < bl || bh < al {
                            return Some(false);
                        }
                        if al == ah && bl == bh && al == bl {
                            return Some(true);
                        }
                    }
                }
                if !st.order.is_empty() {
                    match n.op {
                        Op::Ult => {
                            if self.ordered(st, n.a, n.b, true) {
                                return Some(true);
                            }
                            if self.ordered(st, n.b, n.a, false) {
                                return Some(false);
                            }
                        }
                        Op::Ule => {
                            if self.ordered(st, n.a, n.b, false) {
                                return Some(true);
                            }
                            if self.ordered(st, n.b, n.a, true) {
                                return Some(false);
                            }
                        }
                        _ => {
                            if self.ordered(st, n.a, n.b, true) || self.ordered(st, n.b, n.a, true) {
                                return Some(false);
                            }
                            if self.ordered(st, n.a, n.b, false) && self.ordered(st, n.b, n.a, false) {
                                return Some(true);
                            }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn learn(&self, st: &mut State, l: Bv, v: bool, depth: u32) {
        if l.k || depth == 0 {
            return;
        }
        self.sane(st.model.eval(l) == v as u128, "condition");
        Rc::make_mut(&mut st.known).insert(l.v as u32, v);
        self.learn_bits(st, l, 1, v as u64, 24);
        let n = node(l);
        match n.op {
            Op::Xor if n.b.is(1) => self.learn(st, n.a, !v, depth - 1),
            Op::And if n.w == 1 && v => {
                self.learn(st, n.a, true, depth - 1);
                self.learn(st, n.b, true, depth - 1);
            }
            Op::Or if n.w == 1 && !v => {
                self.learn(st, n.a, false, depth - 1);
                self.learn(st, n.b, false, depth - 1);
            }
            Op::Ult | Op::Ule | Op::Eq if n.a.w <= 64 => {
                let (al, ah) = self.range(st, n.a, 6);
                let (bl, bh) = self.range(st, n.b, 6);
                match (n.op, v) {
                    (Op::Ult, true) => self.note_order(st, n.a, n.b, true),
                    (Op::Ult, false) => self.note_order(st, n.b, n.a, false),
                    (Op::Ule, true) => self.note_order(st, n.a, n.b, false),
                    (Op::Ule, false) => self.note_order(st, n.b, n.a, true),
                    (Op::Eq, true) => {
                        self.note_order(st, n.a, n.b, false);
                        self.note_order(st, n.b, n.a, false);
                    }
                    _ => {}
                }
                match (n.op, v) {
                    (Op::Ult, true) => {
                        self.set_range(st, n.a, al, bh.saturating_sub(1));
                        self.set_range(st, n.b, al.saturating_add(1), bh);
                        if !n.b.k && !n.a.k {
                            let opp = bin(Op::Ule, n.b, n.a);
                            if !opp.k {
                                Rc::make_mut(&mut st.known).insert(opp.v as u32, false);
                            }
                        }
                    }
                    (Op::Ult, false) => {
                        self.set_range(st, n.a, bl, ah);
                        self.set_range(st, n.b, bl, ah);
                    }
                    (Op::Ule, true) => {
                        self.set_range(st, n.a, al, bh);
                        self.set_range(st, n.b, al, bh);
                        if !n.b.k && !n.a.k {
                            let opp = bin(Op::Ult, n.b, n.a);
                            if !opp.k {
                                Rc::make_mut(&mut st.known).insert(opp.v as u32, false);
                            }
                        }
                    }
                    (Op::Ule, false) => {
                        self.set_range(st, n.a, bl.saturating_add(1), ah);
                        self.set_range(st, n.b, bl, ah.saturating_sub(1));
                    }
                    (Op::Eq, true) => {
                        let (l, h) = (al.max(bl), ah.min(bh));
                        self.set_range(st, n.a, l, h);
                        self.set_range(st, n.b, l, h);
                    }
                    (Op::Eq, false) => {
                        if n.b.k {
                            if al == n.b.v {
                                self.set_range(st, n.a, al.saturating_add(1), ah);
                            } else if ah == n.b.v {
                                self.set_range(st, n.a, al, ah.saturating_sub(1));
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    fn set_range(&self, st: &mut State, b: Bv, lo: u64, hi: u64) {
        if b.k || b.w > 64 || lo > hi {
            return;
        }
        let x = st.model.eval(b) as u64;
        self.sane(lo <= x && x <= hi, "range");
        let e = Rc::make_mut(&mut st.ranges).entry(b.v as u32).or_insert((0, u64::MAX));
        e.0 = e.0.max(lo);
        e.1 = e.1.min(hi);
        if e.0 > e.1 {
            // contradictory (infeasible state); keep it harmless
            e.1 = e.0;
        }
        let (lo, hi) = *e;
        if lo == hi || lo == info(b).hi || hi == info(b).lo {
            self.learn_val(st, b, if lo == info(b).hi { lo } else { hi }, 24);
        }
        let n = node(b);
        match n.op {
            Op::ZExt => self.set_range(st, n.a, lo, hi),
            Op::Shl if n.b.k && n.b.v < 64 => {
                if info(n.a).hi <= (mask(n.w) >> n.b.v) {
                    self.set_range(st, n.a, lo.div_ceil(1 << n.b.v), hi >> n.b.v);
                }
            }
            Op::Sub if n.a.k => {
                // no borrow: x = c - value
                let (_, h) = self.range(st, n.b, 4);
                if h <= n.a.v && lo <= n.a.v {
                    self.set_range(st, n.b, n.a.v - hi.min(n.a.v), n.a.v - lo);
                }
            }
            Op::Add if !n.b.k => {
                let ((al, ah), (bl, bh)) = (self.range(st, n.a, 4), self.range(st, n.b, 4));
                if ah.checked_add(bh).map_or(false, |x| x <= mask(n.w)) {
                    let nar = |l: u64, h: u64, ol: u64, oh: u64| (lo.saturating_sub(oh).max(l), hi.saturating_sub(ol).min(h));
                    let (x, y) = nar(al, ah, bl, bh);
                    if (x, y) != (al, ah) {
                        self.set_range(st, n.a, x, y);
                    }
                    let (x, y) = nar(bl, bh, al, ah);
                    if (x, y) != (bl, bh) {
                        self.set_range(st, n.b, x, y);
                    }
                }
            }
            Op::Add if n.b.k => {
                let (_, h) = self.range(st, n.a, 4);
                if h.checked_add(n.b.v).map_or(false, |x| x <= mask(n.w)) && lo >= n.b.v {
                    self.set_range(st, n.a, lo - n.b.v, hi - n.b.v);
                }
            }
            _ => {}
        }
    }
    /// Add `lit` (true under the current model) to the path; the states where it is
    /// false, if any, are queued and will re-execute the current instruction.
    fn constrain(&mut self, st: &mut State, lit: Bv) -> R<()> {
        match self.decide(st, lit, 4) {
            Some(true) => return Ok(()),
            Some(false) => {
                // the model satisfies lit, so this can only be an analysis bug
                return unsup("internal: range analysis contradicts model");
            }
            None => {}
        }
        let full = lit;
        let lit = self.simp(st, lit);
        let neg = not1(lit);
        match self.query(st, neg)? {
            (Ans::Unsat, _) => {
                self.learn(st, full, true, 6);
                self.learn(st, lit, true, 6);
            }
            (Ans::Sat, Some(m)) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.pc.push(neg);
                self.learn(&mut o, neg, true, 6);
                self.verify(&o)?;
                self.work.push(o);
                self.forks += 1;
                st.pc.push(lit);
                self.learn(st, lit, true, 6);
            }
            _ => {
                self.inconclusive += 1;
                st.pc.push(lit);
                self.learn(st, lit, true, 6);
            }
        }
        Ok(())
    }
    fn verify(&self, st: &State) -> R<()> {
        for &c in &st.pc {
            if st.model.eval(c) != 1 {
                return unsup(format!("internal: solver model disagrees with evaluator on {:?}", node(c)));
            }
        }
        Ok(())
    }
    fn query(&mut self, st: &State, extra: Bv) -> R<(Ans, Option<Model>)> {
        if self.o.concrete.is_some() {
            return Ok((Ans::Unsat, None));
        }
        self.max_pc = self.max_pc.max(st.pc.len());
        if self.t0.elapsed().as_secs_f64() > self.o.time {
            return Err(Stop::Budget("time budget exhausted".into()));
        }
        let r = self.solver.check(&st.pc, extra, &st.vars, &st.model);
        if self.o.verbose {
            let w = self.where_(st);
            let w = w.split(" <- ").next().unwrap().to_string();
            let t = self.prof.entry(format!("{:?} {}", r.0, w)).or_insert((0, 0.0));
            t.0 += 1;
            t.1 += self.solver.last;
        }
        Ok(r)
    }
    fn concretize(&mut self, st: &mut State, b: Bv) -> R<u64> {
        if let Some(v) = b.c64() {
            return Ok(v);
        }
        let b = self.simp(st, b);
        if let Some(v) = b.c64() {
            return Ok(v);
        }
        let v = st.model.eval(b) as u64;
        self.constrain(st, bin(Op::Eq, b, kw(b.w, v as u128)))?;
        Ok(v)
    }
    /// Require a property: violation if its negation is satisfiable on this path.
    fn require(&mut self, st: &mut State, c: Bv, msg: &str) -> R<()> {
        self.checks += 1;
        match self.decide(st, c, 40) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Violation(msg.into())),
            None => {}
        }
        if st.model.eval(c) != 1 {
            return Err(Stop::Violation(msg.into()));
        }
        let c = self.simp(st, c);
        match self.query(st, not1(c))? {
            (Ans::Unsat, _) => {
                self.learn(st, c, true, 6);
                Ok(())
            }
            (Ans::Sat, Some(m)) => {
                st.model = Rc::new(m);
                st.pc.push(not1(c));
                self.verify(st)?;
                Err(Stop::Violation(msg.into()))
            }
            _ => {
                self.inconclusive += 1;
                st.pc.push(c);
                Ok(())
            }
        }
    }
    // ---------- running
    pub fn inputs_of(&self, st: &State) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Inp::Const(v) => *v,
                Inp::Var(id, w) => (*st.model.vals.get(*id as usize).unwrap_or(&0) & mask128(*w)) as u64,
            })
            .collect()
    }
    pub fn run(&mut self, entry: &str) {
        let f = match self.lookup(entry) {
            Bi::Def(f) => f,
            _ => {
                self.error = Some(format!("no function {}", entry));
                return;
            }
        };
        let st = State {
            frames: vec![new_frame(f)],
            mem: BTreeMap::new(),
            pc: vec![],
            known: Rc::new(FxMap::default()),
            ranges: Rc::new(FxMap::default()),
            order: Rc::new(FxMap::default()),
            bits: Rc::new(FxMap::default()),
            bits_vs: Default::default(),
            stamp: 0,
            model: Rc::new(Model::new(vec![])),
            vars: vec![],
            inputs: vec![],
            next: HBASE,
            steps: 0,
            nchoice: 0,
            expect_panic: false,
            fork: false,
            covers: 0,
        };
        self.work.push(st);
        let mut first_violation: Option<Instant> = None;
        while let Some(mut st) = self.work.pop() {
            if let Some(t) = first_violation {
                if t.elapsed().as_secs_f64() > 15.0 {
                    return;
                }
            }
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_state(&mut st)));
            let res = match res {
                Ok(r) => r,
                Err(p) => {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    Err(Stop::Unsupported(format!("engine: {}", m)))
                }
            };
            match res {
                Ok(()) => unreachable!(),
                Err(Stop::Done) => {
                    self.paths_done += 1;
                    for b in 0..64 {
                        if st.covers >> b & 1 == 1 {
                            *self.covers.entry(b).or_insert(0) += 1;
                        }
                    }
                    if self.samples.len() < self.o.samples {
                        let v = self.inputs_of(&st);
                        self.samples.push(v);
                    } else if self.o.samples > 0 {
                        // reservoir sampling, fixed seed
                        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let i = ((self.rng >> 33) % self.paths_done) as usize;
                        if i < self.o.samples {
                            self.samples[i] = self.inputs_of(&st);
                        }
                    }
                    if self.o.verbose && self.paths_done % 500 == 0 {
                        eprintln!(
                            "[{:.1}s] paths {} queue {} queries {} solver {:.1}s steps {} nodes {}",
                            self.t0.elapsed().as_secs_f64(),
                            self.paths_done,
                            self.work.len(),
                            self.solver.queries,
                            self.solver.time,
                            self.steps,
                            ctx().nodes.len()
                        );
                    }
                }
                Err(Stop::Kill) => self.paths_killed += 1,
                Err(Stop::Violation(m)) => {
                    let v = self.inputs_of(&st);
                    let w = self.where_(&st);
                    self.violations.push((m, v, w));
                    if self.violations.len() >= self.o.max_violations {
                        return;
                    }
                    first_violation.get_or_insert(Instant::now());
                }
                Err(Stop::Unsupported(m)) => {
                    self.unsupported += 1;
                    if self.error.is_none() {
                        self.error = Some(format!("unsupported: {} at {}", m, self.where_(&st)));
                    }
                    if self.unsupported > 200 {
                        return;
                    }
                }
                Err(Stop::Budget(m)) => {
                    self.out_of_time = true;
                    if self.error.is_none() {
                        self.error = Some(format!("{} at {}", m, self.where_(&st)));
                    }
                    return;
                }
            }
        }
    }
    fn where_(&self, st: &State) -> String {
        let mut s = vec![];
        for fr in st.frames.iter().rev().take(4) {
            let b = &fr.f.f.blocks[fr.bb as usize];
            let l = b.insts.get(fr.ip as usize).map(|i| self.loc(i.dbg)).unwrap_or_default();
            s.push(format!("{}:{}#{} {}", fr.f.f.name, b.name, fr.ip, l));
        }
        s.join(" <- ")
    }
    /// "file:line" of a DILocation
    pub fn loc(&self, d: u32) -> String {
        if let Some((f, _, l)) = self.loc3(d) {
            format!("{}:{}", f, l)
        } else {
            String::new()
        }
    }
    pub fn loc3(&self, d: u32) -> Option<(String, String, u64)> {
        let t = self.m.meta.get(&d)?;
        if !t.contains("DILocation(") {
            return None;
        }
        let line: u64 = attr(t, "line: ")?.parse().ok()?;
        let mut sc: u32 = attr(t, "scope: !")?.parse().ok()?;
        loop {
            let t = self.m.meta.get(&sc)?;
            if t.contains("DISubprogram(") {
                let f: u32 = attr(t, "file: !")?.parse().ok()?;
                let ft = self.m.meta.get(&f)?;
                let file = qattr(ft, "filename: \"")?;
                let dir = qattr(ft, "directory: \"").unwrap_or_default();
                let file = if file.starts_with('/') { file } else { format!("{}/{}", dir, file) };
                let ln = qattr(t, "linkageName: \"").or_else(|| qattr(t, "name: \"")).unwrap_or_default();
                return Some((file, ln, line));
            }
            sc = attr(t, "scope: !")?.parse().ok()?;
        }
    }
    fn val(&self, st: &State, o: &Opd) -> Val {
        let f = st.frames.last().unwrap();
        match o {
            Opd::Reg(r) => match &f.regs[*r as usize] {
                Some(v) => v.clone(),
                None => panic!("UNSUPPORTED: use of unset register in {}", f.f.f.name),
            },
            Opd::K(i) => f.f.consts[*i as usize].clone(),
            Opd::C(c) => self.cval(&Ty::Int(64), c),
            Opd::Meta => Val::B(k(1, 0)),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last().unwrap();
        let from = f.bb;
        let lf = f.f.clone();
        let b = &lf.f.blocks[to as usize];
        let mut vals: Vec<(u32, Val)> = vec![];
        for i in &b.insts[..b.phis] {
            if let I::Phi(_, l) = &i.i {
                let mut found = false;
                for (o, p) in l {
                    if *p == from {
                        vals.push((i.dst.unwrap(), self.val(st, o)));
                        found = true;
                        break;
                    }
                }
                assert!(found, "phi edge");
            }
        }
        let f = st.frames.last_mut().unwrap();
        for (r, v) in vals {
            f.regs[r as usize] = Some(v);
        }
        f.bb = to;
        f.ip = b.phis as u32;
    }
    fn set(&mut self, st: &mut State, dst: Option<u32>, v: Val) {
        let f = st.frames.last_mut().unwrap();
        if let Some(d) = dst {
            f.regs[d as usize] = Some(v);
        }
        f.ip += 1;
    }
    fn run_state(&mut self, st: &mut State) -> R<()> {
        let mut cnt = 0u32;
        loop {
            cnt += 1;
            if cnt & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.o.time {
                return Err(Stop::Budget("time budget exhausted".into()));
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.o.max_steps {
                return Err(Stop::Violation("no result within the per-path step budget (non-termination?)".into()));
            }
            let fr = st.frames.last().unwrap();
            let lf = fr.f.clone();
            let inst = &lf.f.blocks[fr.bb as usize].insts[fr.ip as usize];
            if inst.dbg != 0 {
                let d = inst.dbg as usize;
                if d >= self.dbg_seen.len() {
                    self.dbg_seen.resize(d + 1000, false);
                }
                self.dbg_seen[d] = true;
            }
            self.step(st, inst)?;
        }
    }
    fn step(&mut self, st: &mut State, inst: &Inst) -> R<()> {
        match &inst.i {
            I::Bin(op, t, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                if *op == Op::Shl {
                    // 1 << x with few possible x: one path each
                    if let (Val::B(p), Val::B(q)) = (&x, &y) {
                        if p.k && !q.k && q.w <= 64 {
                            let z = self.simp(st, *q);
                            let mut y = z;
                            while !y.k {
                                let n = node(y);
                                match n.op {
                                    Op::Add if n.b.k => y = n.a,
                                    Op::Sub if n.a.k => y = n.b,
                                    _ => break,
                                }
                            }
                            let (l, h) = self.range(st, y, 6);
                            if h - l <= 10 || st.fork {
                                let v = self.concretize(st, z)?;
                                let r = self.bin_val(st, *op, t, &x, &Val::B(k(q.w, v)))?;
                                self.set(st, inst.dst, r);
                                return Ok(());
                            }
                        }
                    }
                }
                if *op == Op::And {
                    if let (Val::B(p), Val::B(q)) = (&x, &y) {
                        if let Some(r) = self.lowest(st, *p, *q)? {
                            self.set(st, inst.dst, Val::B(r));
                            return Ok(());
                        }
                    }
                }
                let r = self.bin_val(st, *op, t, &x, &y)?;
                self.set(st, inst.dst, r);
            }
            I::Icmp(p, _, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = lift2(&x, &y, &|x, y| icmp(*p, x, y));
                self.set(st, inst.dst, r);
            }
            I::Load(t, a) => {
                let p = self.val(st, a).b();
                let v = self.load(st, p, t)?;
                self.set(st, inst.dst, v);
            }
            I::Store(t, v, a) => {
                let p = self.val(st, a).b();
                let v = self.val(st, v);
                self.store(st, p, t, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            I::Gep(t, b, idx) => {
                let base = self.val(st, b).b();
                let ix: Vec<(Ty, Val)> = idx.iter().map(|(t, o)| (t.clone(), self.val(st, o))).collect();
                let r = self.gep(t, base, &ix);
                self.set(st, inst.dst, Val::B(r));
            }
            I::Cast(op, t, a, d) => {
                let x = self.val(st, a);
                let r = self.cast(st, op, t, &x, d)?;
                self.set(st, inst.dst, r);
            }
            I::Select(_, c, _, a, b) => {
                let (c, x, y) = (self.val(st, c), self.val(st, a), self.val(st, b));
                let r = match &c {
                    Val::B(c) => {
                        let c = match self.decide(st, *c, 3) {
                            Some(v) => kb(v),
                            None if st.fork => {
                                let v = st.model.eval(*c) == 1;
                                self.constrain(st, if v { *c } else { not1(*c) })?;
                                kb(v)
                            }
                            None => *c,
                        };
                        sel(c, &x, &y)
                    }
                    Val::A(cs) => {
                        if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                            Val::A(Rc::new((0..cs.len()).map(|i| sel(cs[i].b(), &xs[i], &ys[i])).collect()))
                        } else {
                            return unsup("vector select");
                        }
                    }
                };
                self.set(st, inst.dst, r);
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr(c, a, b) => {
                let c = self.val(st, c).b();
                let v = match self.decide(st, c, 4) {
                    Some(v) => v,
                    None => {
                        let v = st.model.eval(c) == 1;
                        self.constrain(st, if v { c } else { not1(c) })?;
                        v
                    }
                };
                self.jump(st, if v { *a } else { *b });
            }
            I::Switch(_, v, d, cases) => {
                let x = self.simp(st, self.val(st, v).b());
                let xv = match x.cv() {
                    Some(v) => v,
                    None => st.model.eval(x),
                };
                let mut target = None;
                for (c, b) in cases {
                    if let Cst::Int(w, cv) = c {
                        if cv & mask128(*w) == xv {
                            target = Some((*b, kw(*w, *cv)));
                        }
                    }
                }
                if !x.k {
                    match target {
                        Some((_, cv)) => self.constrain(st, bin(Op::Eq, x, cv))?,
                        None => {
                            let mut c = TRUE;
                            for (cc, _) in cases {
                                if let Cst::Int(w, cv) = cc {
                                    c = bin(Op::And, c, not1(bin(Op::Eq, x, kw(*w, *cv))));
                                }
                            }
                            self.constrain(st, c)?
                        }
                    }
                }
                self.jump(st, target.map_or(*d, |t| t.0));
            }
            I::Phi(..) => return unsup("phi in the middle"),
            I::Call(rt, c, args, normal) => return self.call(st, inst, rt, c, args, *normal),
            I::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                self.ret_to(st, r);
            }
            I::Unreachable => return Err(Stop::Violation("undefined behaviour: unreachable executed".into())),
            I::Alloca(t, n, al) => {
                let n = self.val(st, n).b().c64().unwrap();
                let sz = self.size(t) * n;
                let a = self.alloc(st, sz, *al, false, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, inst.dst, Val::B(k(64, a)));
            }
            I::ExtractValue(o, ix) => {
                let mut v = self.val(st, o);
                for &i in ix {
                    v = match &v {
                        Val::A(l) => l[i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                self.set(st, inst.dst, v);
            }
            I::InsertValue(_, o, _, e, ix) => {
                let v = self.val(st, o);
                let e = self.val(st, e);
                let r = insert(&v, &e, ix);
                self.set(st, inst.dst, r);
            }
            I::ExtractElement(_, o, i) => {
                let v = self.val(st, o);
                let i = self.val(st, i).b();
                let i = self.concretize(st, i)?;
                if let Val::A(l) = &v {
                    let r = l[i as usize].clone();
                    self.set(st, inst.dst, r);
                } else {
                    return unsup("extractelement");
                }
            }
            I::InsertElement(_, o, e, i) => {
                let v = self.val(st, o);
                let e = self.val(st, e);
                let i = self.val(st, i).b();
                let i = self.concretize(st, i)?;
                let r = insert(&v, &e, &[i as u32]);
                self.set(st, inst.dst, r);
            }
            I::Shuffle(t, a, b, m) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let n = match t {
                    Ty::Vec(n, _) => *n,
                    _ => return unsup("shuffle"),
                };
                let idx: Vec<u64> = match m {
                    Cst::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            Cst::Int(_, v) => (*v as u32) as u64,
                            _ => 0,
                        })
                        .collect(),
                    Cst::Zero(Ty::Vec(n, _)) | Cst::Undef(Ty::Vec(n, _)) => vec![0; *n as usize],
                    Cst::Splat(n, c) => match **c {
                        Cst::Int(_, v) => vec![v as u64; *n as usize],
                        _ => return unsup("shuffle"),
                    },
                    _ => return unsup("shuffle mask"),
                };
                if let (Val::A(x), Val::A(y)) = (&x, &y) {
                    let r = idx
                        .iter()
                        .map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() })
                        .collect();
                    self.set(st, inst.dst, Val::A(Rc::new(r)));
                } else {
                    return unsup("shuffle");
                }
            }
            I::Freeze(_, o) => {
                let v = self.val(st, o);
                self.set(st, inst.dst, v);
            }
            I::Fence => st.frames.last_mut().unwrap().ip += 1,
            I::Fcmp(p, _, a, b) => {
                let (x, y) = (self.val(st, a).b(), self.val(st, b).b());
                let r = self.fcmp(st, p, x, y)?;
                self.set(st, inst.dst, Val::B(r));
            }
            I::FNeg(..) => return unsup("fneg"),
            I::AtomicRmw(op, t, a, b) => {
                let p = self.val(st, a).b();
                let v = self.val(st, b);
                let old = self.load(st, p, t)?;
                let nv = match op.as_str() {
                    "add" => Val::B(bin(Op::Add, old.b(), v.b())),
                    "sub" => Val::B(bin(Op::Sub, old.b(), v.b())),
                    "xchg" => v,
                    _ => return unsup("atomicrmw"),
                };
                self.store(st, p, t, &nv)?;
                self.set(st, inst.dst, old);
            }
            I::CmpXchg(..) => return unsup("cmpxchg"),
            I::Unsupported(s) => return unsup(s.clone()),
        }
        Ok(())
    }
    fn ret_to(&mut self, st: &mut State, r: Option<Val>) {
        let fr = st.frames.last().unwrap();
        let lf = fr.f.clone();
        let inst = &lf.f.blocks[fr.bb as usize].insts[fr.ip as usize];
        if let I::Call(_, _, _, normal) = &inst.i {
            self.finish_call(st, inst.dst, r, *normal);
        } else {
            panic!("return to non-call");
        }
    }
    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, r: Option<Val>, normal: Option<u32>) {
        {
            let f = st.frames.last_mut().unwrap();
            if let (Some(d), Some(v)) = (dst, r) {
                f.regs[d as usize] = Some(v);
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
    }
    fn bin_val(&mut self, st: &mut State, op: Op, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let et = match self.rt(t).clone() {
                Ty::Vec(_, t) => *t,
                _ => return unsup("vector op"),
            };
            let mut r = vec![];
            for i in 0..a.len() {
                r.push(self.bin_val(st, op, &et, &a[i], &b[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (a, b) = (x.b(), y.b());
        if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
            return Ok(Val::B(fbin(op, a, b)));
        }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && !b.k {
            // division by a symbolic value: rustc guards zero; keep symbolic
        }
        Ok(Val::B(bin(op, a, b)))
    }
    fn cast(&mut self, st: &mut State, op: &str, t: &Ty, x: &Val, d: &Ty) -> R<Val> {
        if let Val::A(l) = x {
            if op == "bitcast" {
                return self.bitcast(t, x, d);
            }
            let (et, dt) = match (self.rt(t).clone(), self.rt(d).clone()) {
                (Ty::Vec(_, a), Ty::Vec(_, b)) => (*a, *b),
                _ => return unsup("vector cast"),
            };
            let mut r = vec![];
            for v in l.iter() {
                r.push(self.cast(st, op, &et, v, &dt)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let mut b = x.b();
        if st.fork && b.w == 1 && !b.k && op != "trunc" {
            b = match self.decide(st, b, 3) {
                Some(v) => kb(v),
                None => {
                    let v = st.model.eval(b) == 1;
                    self.constrain(st, if v { b } else { not1(b) })?;
                    kb(v)
                }
            };
        }
        Ok(Val::B(match op {
            "trunc" => extract(b, 0, self.width(d)),
            "zext" => zext(b, self.width(d)),
            "sext" => sext(b, self.width(d)),
            "ptrtoint" | "ptrtoaddr" => {
                let w = self.width(d);
                if w < 64 {
                    extract(b, 0, w)
                } else {
                    zext(b, w)
                }
            }
            "inttoptr" => {
                if b.w < 64 {
                    zext(b, 64)
                } else {
                    extract(b, 0, 64)
                }
            }
            "bitcast" => return self.bitcast(t, x, d),
            "uitofp" => un(Op::UiToFp, self.width(d), b),
            "sitofp" => {
                if !b.k && info(b).hi < (1u64 << (b.w.min(64) - 1)) {
                    un(Op::UiToFp, self.width(d), b)
                } else {
                    un(Op::SiToFp, self.width(d), b)
                }
            }
            "fptoui" | "fptosi" => self.fp_to_int(st, b, self.width(d), op == "fptosi")?,
            _ => return unsup(format!("cast {}", op)),
        }))
    }
    fn bitcast(&mut self, t: &Ty, x: &Val, d: &Ty) -> R<Val> {
        let (t, d) = (self.rt(t).clone(), self.rt(d).clone());
        let flat = match (&t, x) {
            (Ty::Vec(_, _), Val::A(l)) => {
                let mut r: Option<Bv> = None;
                let tot: u32 = l.iter().map(|v| v.b().w as u32).sum();
                if tot > 128 {
                    // same element count re-interpretation only
                    if let Ty::Vec(n, et) = &d {
                        let ew = self.width(et);
                        if *n as usize == l.len() && l[0].b().w == ew {
                            return Ok(x.clone());
                        }
                        let mut out = vec![];
                        let sw = l[0].b().w;
                        if ew > sw && ew <= 128 {
                            let per = (ew / sw) as usize;
                            for ch in l.chunks(per) {
                                let mut r = ch[0].b();
                                for v in &ch[1..] {
                                    r = concat(v.b(), r);
                                }
                                out.push(Val::B(r));
                            }
                        } else {
                            let per = sw / ew;
                            for v in l.iter() {
                                for j in 0..per {
                                    out.push(Val::B(extract(v.b(), j * ew, ew)));
                                }
                            }
                        }
                        return Ok(Val::A(Rc::new(out)));
                    }
                    return unsup("wide bitcast");
                }
                for v in l.iter() {
                    r = Some(match r {
                        None => v.b(),
                        Some(p) => concat(v.b(), p),
                    });
                }
                r.unwrap()
            }
            (_, Val::B(b)) => *b,
            _ => return unsup("bitcast"),
        };
        match &d {
            Ty::Vec(n, et) => {
                let w = self.width(et);
                Ok(Val::A(Rc::new((0..*n as u16).map(|i| Val::B(extract(flat, i * w, w))).collect())))
            }
            _ => Ok(Val::B(flat)),
        }
    }
    /// single integer leaf of a monotone floating-point expression
    fn fp_leaf(&self, b: Bv) -> Option<Bv> {
        if b.k {
            return None;
        }
        let n = node(b);
        match n.op {
            Op::UiToFp => Some(n.a),
            Op::FLog2 | Op::FCeil | Op::FFloor | Op::FSqrt => self.fp_leaf(n.a),
            Op::FDiv | Op::FMul if n.b.k && f64::from_bits(n.b.v) > 0.0 => self.fp_leaf(n.a),
            Op::FMul if n.a.k && f64::from_bits(n.a.v) > 0.0 => self.fp_leaf(n.b),
            Op::FAdd | Op::FSub if n.b.k => self.fp_leaf(n.a),
            Op::FAdd if n.a.k => self.fp_leaf(n.b),
            _ => None,
        }
    }
    fn fp_at(&self, b: Bv, leaf: u64) -> f64 {
        if b.k {
            return f64::from_bits(b.v);
        }
        let n = node(b);
        if n.op == Op::UiToFp {
            return leaf as f64;
        }
        let x = self.fp_at(n.a, leaf);
        let y = if n.b.w == 64 { self.fp_at(n.b, leaf) } else { 0.0 };
        f64::from_bits(fold(n.op, 64, x.to_bits() as u128, 64, y.to_bits() as u128, 0) as u64)
    }
    /// f(leaf) for a monotone FP expression, as an exact integer step function.
    fn step_fn(&mut self, st: &mut State, leaf: Bv, f: &dyn Fn(u64) -> u64, w: u16) -> R<Bv> {
        let (lo, hi) = self.range(st, leaf, 6);
        let mut steps: Vec<(u64, u64)> = vec![]; // (first leaf value, result)
        let mut cur = lo;
        loop {
            let v = f(cur);
            steps.push((cur, v));
            if steps.len() > 300 {
                return unsup("floating point: too many steps");
            }
            if f(hi) == v {
                break;
            }
            let (mut a, mut b) = (cur, hi); // f(a)==v, f(b)!=v
            while b - a > 1 {
                let m = a + (b - a) / 2;
                if f(m) == v {
                    a = m;
                } else {
                    b = m;
                }
            }
            cur = b;
        }
        if steps.len() == 1 {
            return Ok(k(w, steps[0].1));
        }
        // one successor per step; every successor re-executes the instruction with
        // the leaf confined to its interval
        let cur = st.model.eval(leaf) as u64;
        let mut mine = None;
        for i in 0..steps.len() {
            let end = if i + 1 < steps.len() { steps[i + 1].0 - 1 } else { hi };
            let inside = bin(
                Op::And,
                bin(Op::Ule, k(leaf.w, steps[i].0), leaf),
                bin(Op::Ule, leaf, k(leaf.w, end)),
            );
            if steps[i].0 <= cur && cur <= end {
                mine = Some((inside, steps[i].1, steps[i].0, end));
                continue;
            }
            match self.query(st, inside)? {
                (Ans::Unsat, _) => {}
                (Ans::Sat, Some(m)) => {
                    let mut o = st.clone();
                    o.model = Rc::new(m);
                    o.pc.push(inside);
                    self.learn(&mut o, inside, true, 6);
                    self.set_range(&mut o, leaf, steps[i].0, end);
                    self.verify(&o)?;
                    self.work.push(o);
                    self.forks += 1;
                }
                _ => self.inconclusive += 1,
            }
        }
        let (lit, v, a, z) = mine.unwrap();
        st.pc.push(lit);
        self.learn(st, lit, true, 6);
        self.set_range(st, leaf, a, z);
        Ok(k(w, v))
    }
    fn fp_to_int(&mut self, st: &mut State, b: Bv, w: u16, signed: bool) -> R<Bv> {
        let conv = move |x: f64| -> u64 {
            if signed {
                (x as i64) as u64
            } else {
                x as u64
            }
        };
        if b.k {
            return Ok(k(w, conv(f64::from_bits(b.v))));
        }
        let leaf = match self.fp_leaf(b) {
            Some(l) if l.w <= 64 => l,
            _ => return unsup("floating point: non-monotone expression"),
        };
        let me: *const Exec = self;
        let f = move |v: u64| conv(unsafe { (*me).fp_at(b, v) });
        let r = self.step_fn(st, leaf, &f, w)?;
        let v = self.concretize(st, r)?;
        Ok(k(w, v))
    }
    fn fcmp(&mut self, st: &mut State, p: &str, x: Bv, y: Bv) -> R<Bv> {
        let c = |p: &str, a: f64, b: f64| match p {
            "oeq" => a == b,
            "une" => a != b,
            "olt" => a < b,
            "ole" => a <= b,
            "ogt" => a > b,
            "oge" => a >= b,
            "ult" => !(a >= b),
            "ule" => !(a > b),
            "ugt" => !(a <= b),
            "uge" => !(a < b),
            "uno" => a.is_nan() || b.is_nan(),
            "ord" => !(a.is_nan() || b.is_nan()),
            _ => panic!("UNSUPPORTED: fcmp {}", p),
        };
        if x.k && y.k {
            return Ok(kb(c(p, f64::from_bits(x.v), f64::from_bits(y.v))));
        }
        if let (Some(l), true) = (self.fp_leaf(x), y.k) {
            let me: *const Exec = self;
            let p = p.to_string();
            let yv = f64::from_bits(y.v);
            let f = move |v: u64| c(&p, unsafe { (*me).fp_at(x, v) }, yv) as u64;
            return self.step_fn(st, l, &f, 1);
        }
        // neither side can be NaN: order the sign-magnitude bit patterns
        let num = |b: Bv| if b.k { !f64::from_bits(b.v).is_nan() } else { matches!(node(b).op, Op::UiToFp | Op::SiToFp) };
        if x.w == 64 && num(x) && num(y) {
            let key = |b: Bv| {
                let top = k(64, 1 << 63);
                let b = ite(bin(Op::Eq, b, top), k(64, 0), b);
                ite(bin(Op::Slt, b, k(64, 0)), bin(Op::Sub, top, b), b)
            };
            let (a, b) = (key(x), key(y));
            return Ok(match &p[p.len() - 2..] {
                "eq" => bin(Op::Eq, a, b),
                "ne" => not1(bin(Op::Eq, a, b)),
                "lt" => bin(Op::Slt, a, b),
                "le" => bin(Op::Sle, a, b),
                "gt" => bin(Op::Slt, b, a),
                "ge" => bin(Op::Sle, b, a),
                _ => kb(p == "ord"),
            });
        }
        unsup("symbolic fcmp")
    }
    fn call(&mut self, st: &mut State, inst: &Inst, rt: &Ty, c: &Callee, args: &[(Ty, Opd)], normal: Option<u32>) -> R<()> {
        let name: String;
        let b = match c {
            Callee::Name(n) => {
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") {
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(());
                }
                name = n.clone();
                self.lookup(n)
            }
            Callee::Ind(o) => {
                let p = self.val(st, o).b();
                let p = self.concretize(st, p)?;
                match self.faddr_rev.get(&p).cloned() {
                    Some(n) => {
                        name = n.clone();
                        self.lookup(&n)
                    }
                    None => return Err(Stop::Violation("memory: call through invalid function pointer".into())),
                }
            }
            Callee::Asm(s) => {
                if s.contains("\"\"") || s.contains("# {0}") {
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(());
                }
                return unsup(format!("inline asm {}", s));
            }
        };
        let av: Vec<Val> = args.iter().map(|(_, o)| self.val(st, o)).collect();
        let r: Option<Val> = match b {
            Bi::Def(f) => {
                if !self.fn_seen.contains(&name) {
                    self.fn_seen.insert(name.clone());
                }
                if st.frames.len() > 400 {
                    return Err(Stop::Budget("call depth budget exhausted".into()));
                }
                let mut fr = new_frame(f.clone());
                for (i, (_, r)) in f.f.params.iter().enumerate() {
                    fr.regs[*r as usize] = Some(av[i].clone());
                }
                st.frames.push(fr);
                return Ok(());
            }
            Bi::Any => {
                let bits = av[0].b().c64().unwrap_or(64) as u16;
                if let Some(cv) = &self.o.concrete {
                    let i = st.inputs.len();
                    let v = cv.get(i).copied().unwrap_or(0);
                    st.inputs.push(Inp::Const(v));
                    Some(Val::B(k(64, v & mask(bits))))
                } else {
                    let id = st.vars.len() as u32;
                    st.vars.push(bits);
                    st.inputs.push(Inp::Var(id, bits));
                    Some(Val::B(zext(var(id, bits), 64)))
                }
            }
            Bi::Choose => {
                let (lo, hi) = (av[0].b(), av[1].b());
                let lo = self.concretize(st, lo)?;
                let hi = self.concretize(st, hi)?;
                if lo > hi {
                    return Err(Stop::Kill);
                }
                if let Some(cv) = &self.o.concrete {
                    let v = cv.get(st.inputs.len()).copied().unwrap_or(lo);
                    st.inputs.push(Inp::Const(v));
                    st.nchoice += 1;
                    Some(Val::B(k(64, v)))
                } else {
                    let mut vals: Vec<u64> = (lo..=hi).collect();
                    if st.nchoice == 0 {
                        let (i, n) = self.o.shard;
                        vals = vals.into_iter().filter(|v| (v - lo) % n == i).collect();
                        if vals.is_empty() {
                            return Err(Stop::Kill);
                        }
                    }
                    st.nchoice += 1;
                    for &v in vals[1..].iter().rev() {
                        let mut o = st.clone();
                        o.inputs.push(Inp::Const(v));
                        self.finish_call(&mut o, inst.dst, Some(Val::B(k(64, v))), normal);
                        self.work.push(o);
                    }
                    st.inputs.push(Inp::Const(vals[0]));
                    Some(Val::B(k(64, vals[0])))
                }
            }
            Bi::Concretize => {
                let x = av[0].b();
                let v = self.concretize(st, x)?;
                Some(Val::B(k(64, v)))
            }
            Bi::Param => {
                let i = av[0].b().c64().unwrap_or(0) as usize;
                Some(Val::B(k(64, self.o.params.get(i).copied().unwrap_or(0))))
            }
            Bi::Assume => {
                let c = av[0].b();
                self.assume(st, c)?;
                None
            }
            Bi::Check => {
                let c = av[0].b();
                let id = av.get(1).and_then(|v| v.b().c64()).unwrap_or(0);
                if st.expect_panic {
                    return Err(Stop::Violation(format!("check {}: expected a panic, none happened", id)));
                }
                self.require(st, c, &format!("check {}", id))?;
                None
            }
            Bi::ExpectPanic => {
                let v = av[0].b().c64().unwrap_or(1);
                if v == 0 && st.expect_panic {
                    return Err(Stop::Violation("expected a panic, none happened".into()));
                }
                st.expect_panic = v == 1;
                None
            }
            Bi::Fork => {
                st.fork = av[0].b().c64() == Some(1);
                None
            }
            Bi::Cover => {
                let id = av[0].b().c64().unwrap_or(0);
                st.covers |= 1 << (id & 63);
                None
            }
            Bi::Panic(n) => {
                if st.expect_panic {
                    self.paths_panic_ok += 1;
                    return Err(Stop::Done);
                }
                return Err(Stop::Violation(format!("panic ({})", n)));
            }
            Bi::Malloc => {
                let n = self.concretize(st, av[0].b())?;
                if n > 1 << 30 {
                    return Err(Stop::Violation(format!("allocation of {} bytes", n)));
                }
                Some(Val::B(k(64, self.alloc(st, n, 16, false, true))))
            }
            Bi::Calloc => {
                let n = self.concretize(st, av[0].b())?;
                let m = self.concretize(st, av[1].b())?;
                if n.checked_mul(m).map_or(true, |x| x > 1 << 30) {
                    return Err(Stop::Violation("huge allocation".into()));
                }
                Some(Val::B(k(64, self.alloc(st, n * m, 16, true, true))))
            }
            Bi::Realloc => {
                let p = self.concretize(st, av[0].b())?;
                let n = self.concretize(st, av[1].b())?;
                if n > 1 << 30 {
                    return Err(Stop::Violation("huge allocation".into()));
                }
                let old = match st.mem.get(&p) {
                    Some(o) => o.clone(),
                    None => return Err(Stop::Violation("memory: realloc of invalid pointer".into())),
                };
                let a = self.alloc(st, n, 16, false, true);
                let l = old.size.min(n) as usize;
                let o = Rc::make_mut(st.mem.get_mut(&a).unwrap());
                o.data[..l].copy_from_slice(&old.data[..l]);
                st.mem.remove(&p);
                Some(Val::B(k(64, a)))
            }
            Bi::Free => {
                let p = self.concretize(st, av[0].b())?;
                if p != 0 && !st.mem.get(&p).map_or(false, |o| o.heap) {
                    return Err(Stop::Violation("memory: invalid or double free".into()));
                }
                st.mem.remove(&p);
                None
            }
            Bi::PosixMemalign => {
                let p = av[0].b();
                let al = self.concretize(st, av[1].b())?;
                let n = self.concretize(st, av[2].b())?;
                let a = self.alloc(st, n, al, false, true);
                self.store(st, p, &Ty::Ptr, &Val::B(k(64, a)))?;
                Some(Val::B(k(32, 0)))
            }
            Bi::Memcmp(ordered) => {
                let n = self.concretize(st, av[2].b())?;
                let (mut eq, mut res) = (TRUE, k(32, 0));
                let mut xs = vec![];
                for i in 0..n {
                    let a = self.load(st, bin(Op::Add, av[0].b(), k(64, i)), &Ty::Int(8))?.b();
                    let b = self.load(st, bin(Op::Add, av[1].b(), k(64, i)), &Ty::Int(8))?.b();
                    xs.push((a, b));
                }
                for &(a, b) in xs.iter().rev() {
                    eq = bin(Op::And, eq, bin(Op::Eq, a, b));
                    if ordered {
                        let lt = ite(bin(Op::Ult, a, b), k(32, u32::MAX as u64), k(32, 1));
                        res = ite(bin(Op::Eq, a, b), res, lt);
                    }
                }
                if !ordered {
                    res = ite(eq, k(32, 0), k(32, 1));
                }
                Some(Val::B(res))
            }
            Bi::Intr(n) => self.intrinsic(st, &n, rt, &av, args)?,
            Bi::Missing(n) => return unsup(format!("call of external function {}", n)),
        };
        self.finish_call(st, inst.dst, r, normal);
        Ok(())
    }
    fn assume(&mut self, st: &mut State, c: Bv) -> R<()> {
        match self.decide(st, c, 4) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Kill),
            None => {}
        }
        if self.o.concrete.is_some() {
            return Err(Stop::Kill);
        }
        if st.model.eval(c) != 1 {
            match self.query(st, c)? {
                (Ans::Sat, Some(m)) => {
                    st.model = Rc::new(m);
                    st.pc.push(c);
                    self.verify(st)?;
                }
                (Ans::Unsat, _) => return Err(Stop::Kill),
                _ => {
                    self.inconclusive += 1;
                    return Err(Stop::Kill);
                }
            }
        } else {
            st.pc.push(c);
        }
        self.learn(st, c, true, 8);
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: Bv, src: Bv, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.resolve(st, src, n, "read")?;
        let sf = self.concretize(st, soff)? as usize;
        let cells: Vec<Cell> = so.data[sf..sf + n as usize].to_vec();
        let (d, doff) = self.resolve(st, dst, n, "write")?;
        let df = self.concretize(st, doff)? as usize;
        drop(so);
        let ob = self.own(st, d)?;
        ob.data[df..df + n as usize].copy_from_slice(&cells);
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, av: &[Val], _args: &[(Ty, Opd)]) -> R<Option<Val>> {
        let s = &n[5..];
        // strip type suffix
        let starts = |p: &str| s.starts_with(p);
        if starts("memcpy.") || starts("memmove.") {
            let l = self.concretize(st, av[2].b())?;
            self.copy(st, av[0].b(), av[1].b(), l)?;
            return Ok(Some(av[0].clone()));
        }
        if starts("memset.") {
            let l = self.concretize(st, av[2].b())?;
            if l > 0 {
                let (o, off) = self.resolve(st, av[0].b(), l, "write")?;
                let f = self.concretize(st, off)? as usize;
                let b = av[1].b();
                let b = if b.w > 8 { extract(b, 0, 8) } else { b };
                let cell = if b.k { Cell::C(b.v as u8) } else { Cell::S(b.v as u32, 0) };
                let ob = self.own(st, o)?;
                for c in &mut ob.data[f..f + l as usize] {
                    *c = cell;
                }
            }
            return Ok(Some(av[0].clone()));
        }
        if starts("assume") {
            let c = av[0].b();
            match self.decide(st, c, 4) {
                Some(true) => {}
                Some(false) => return Err(Stop::Violation("undefined behaviour: llvm.assume(false)".into())),
                None => {
                    let v = st.model.eval(c) == 1;
                    if !v {
                        return Err(Stop::Violation("undefined behaviour: llvm.assume violated".into()));
                    }
                    self.constrain(st, c)?;
                }
            }
            return Ok(None);
        }
        if starts("trap") {
            if st.expect_panic {
                self.paths_panic_ok += 1;
                return Err(Stop::Done);
            }
            return Err(Stop::Violation("trap".into()));
        }
        if starts("expect.") {
            return Ok(Some(av[0].clone()));
        }
        if starts("is.constant") {
            return Ok(Some(Val::B(FALSE)));
        }
        if starts("threadlocal.address") {
            return Ok(Some(av[0].clone()));
        }
        if starts("x86.sse2.pause") || starts("prefetch") || starts("sideeffect") {
            return Ok(None);
        }
        if starts("ctpop.") {
            return Ok(Some(map1(&av[0], &|b| un(Op::Popcnt, b.w, b))));
        }
        if starts("ctlz.") || starts("cttz.") {
            if let Val::B(b) = &av[0] {
                if !b.k {
                    if let Some((x, i)) = self.split_low(st, *b, starts("ctlz."))? {
                        let r = if i >= x.w as u64 || starts("cttz.") { i } else { x.w as u64 - 1 - i };
                        return Ok(Some(Val::B(k(x.w, r))));
                    }
                }
            }
        }
        if starts("ctlz.") {
            return Ok(Some(map1(&av[0], &|b| un(Op::Ctlz, b.w, b))));
        }
        if starts("cttz.") {
            return Ok(Some(map1(&av[0], &|b| un(Op::Cttz, b.w, b))));
        }
        if starts("bswap.") {
            let b = av[0].b();
            let mut r = extract(b, 0, 8);
            for i in 1..b.w / 8 {
                r = concat(r, extract(b, i * 8, 8));
            }
            return Ok(Some(Val::B(r)));
        }
        if starts("bitreverse.") {
            let b = av[0].b();
            let mut r = extract(b, 0, 1);
            for i in 1..b.w {
                r = concat(r, extract(b, i, 1));
            }
            return Ok(Some(Val::B(r)));
        }
        if starts("masked.compressstore.") {
            // (value, pointer, mask): all forks come before the first write
            let (v, m) = match (&av[0], &av[2]) {
                (Val::A(v), Val::A(m)) => (v.clone(), m.clone()),
                _ => return unsup("compressstore operands"),
            };
            let mut on = vec![];
            for b in m.iter() {
                on.push(self.concretize(st, b.b())? == 1);
            }
            let p = self.concretize(st, av[1].b())?;
            let mut i = 0;
            for (x, on) in v.iter().zip(on) {
                if on {
                    let x = x.b();
                    let sz = x.w as u64 / 8;
                    self.store(st, k(64, p + i * sz), &Ty::Int(x.w), &Val::B(x))?;
                    i += 1;
                }
            }
            return Ok(None);
        }
        if starts("x86.bmi.pdep.") || starts("pdep.") {
            let (a, b) = (av[0].b(), av[1].b());
            if st.fork && a.w <= 64 && !(a.k && b.k) {
                // deposit bit by bit, one path per position of the mask's lowest bits
                let a = self.concretize(st, a)?;
                let (mut m, mut r, mut i, mut done) = (b, 0u64, 0, true);
                while i < 64 && a >> i != 0 {
                    match self.split_low(st, m, false)? {
                        Some((x, p)) if p < x.w as u64 => {
                            if (a >> i) & 1 == 1 {
                                r |= 1 << p;
                            }
                            m = bin(Op::And, x, k(x.w, !(1u64 << p) & mask(x.w)));
                        }
                        Some(_) => break,
                        None => {
                            done = false;
                            break;
                        }
                    }
                    i += 1;
                }
                if done {
                    return Ok(Some(Val::B(k(b.w, r))));
                }
            }
            return Ok(Some(Val::B(bin(Op::Pdep, av[0].b(), av[1].b()))));
        }
        for (n, p) in [("umin.", Pred::Ult), ("umax.", Pred::Ugt), ("smin.", Pred::Slt), ("smax.", Pred::Sgt)] {
            if starts(n) {
                if let (Val::B(x), Val::B(y)) = (&av[0], &av[1]) {
                    let c = self.settle(st, icmp(p, *x, *y))?;
                    return Ok(Some(Val::B(ite(c, *x, *y))));
                }
            }
        }
        if starts("usub.sat.") {
            if let (Val::B(x), Val::B(y)) = (&av[0], &av[1]) {
                let c = self.settle(st, bin(Op::Ult, *x, *y))?;
                return Ok(Some(Val::B(ite(c, kw(x.w, 0), bin(Op::Sub, *x, *y)))));
            }
        }
        let mm = |p: Pred| -> Val { lift2(&av[0], &av[1], &|x, y| ite(icmp(p, x, y), x, y)) };
        if starts("umin.") {
            return Ok(Some(mm(Pred::Ult)));
        }
        if starts("umax.") {
            return Ok(Some(mm(Pred::Ugt)));
        }
        if starts("smin.") {
            return Ok(Some(mm(Pred::Slt)));
        }
        if starts("smax.") {
            return Ok(Some(mm(Pred::Sgt)));
        }
        if starts("usub.sat.") {
            return Ok(Some(lift2(&av[0], &av[1], &|x, y| {
                ite(bin(Op::Ult, x, y), kw(x.w, 0), bin(Op::Sub, x, y))
            })));
        }
        if starts("uadd.sat.") {
            return Ok(Some(lift2(&av[0], &av[1], &|x, y| {
                let s = bin(Op::Add, x, y);
                ite(bin(Op::Ult, s, x), kw(x.w, u128::MAX), s)
            })));
        }
        if starts("abs.") {
            let x = av[0].b();
            return Ok(Some(Val::B(ite(bin(Op::Slt, x, kw(x.w, 0)), bin(Op::Sub, kw(x.w, 0), x), x))));
        }
        if starts("fshl.") || starts("fshr.") {
            let (a, b, c) = (av[0].b(), av[1].b(), av[2].b());
            let w = a.w;
            let sh = bin(Op::URem, c, kw(w, w as u128));
            let inv = bin(Op::Sub, kw(w, w as u128), sh);
            let z = bin(Op::Eq, sh, kw(w, 0));
            let r = if starts("fshl.") {
                ite(z, a, bin(Op::Or, bin(Op::Shl, a, sh), bin(Op::LShr, b, inv)))
            } else {
                ite(z, b, bin(Op::Or, bin(Op::Shl, a, inv), bin(Op::LShr, b, sh)))
            };
            return Ok(Some(Val::B(r)));
        }
        if s.contains(".with.overflow.") {
            let (x, y) = (av[0].b(), av[1].b());
            let w = x.w;
            let (r, o) = match &s[..4] {
                "uadd" => {
                    let r = bin(Op::Add, x, y);
                    (r, bin(Op::Ult, r, x))
                }
                "usub" => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                "umul" => {
                    let r = bin(Op::Mul, x, y);
                    let nowrap = w <= 64 && info(x).hi.checked_mul(info(y).hi).map_or(false, |h| h <= mask(w));
                    let (rl, rh) = (self.range(st, x, 6).1, self.range(st, y, 6).1);
                    if nowrap || (w <= 64 && rl.checked_mul(rh).map_or(false, |h| h <= mask(w))) {
                        (r, FALSE)
                    } else if let Some(c) = y.c64().or(x.c64()) {
                        let v = if y.k { x } else { y };
                        if c == 0 {
                            (r, FALSE)
                        } else {
                            (r, bin(Op::Ult, k(w, mask(w) / c), v))
                        }
                    } else {
                        let wide = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                        (r, not1(bin(Op::Eq, extract(wide, w, w), kw(w, 0))))
                    }
                }
                "sadd" | "ssub" | "smul" => {
                    let op = match &s[..4] {
                        "sadd" => Op::Add,
                        "ssub" => Op::Sub,
                        _ => Op::Mul,
                    };
                    let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                    let r = bin(op, x, y);
                    let wide = bin(op, sext(x, ww), sext(y, ww));
                    (r, not1(bin(Op::Eq, wide, sext(r, ww))))
                }
                _ => return unsup(n.to_string()),
            };
            return Ok(Some(Val::A(Rc::new(vec![Val::B(r), Val::B(o)]))));
        }
        if starts("ucmp.") || starts("scmp.") {
            let (x, y) = (av[0].b(), av[1].b());
            let lt = if starts("ucmp.") { Op::Ult } else { Op::Slt };
            let w = self.width(rt);
            return Ok(Some(Val::B(ite(
                bin(lt, x, y),
                kw(w, u128::MAX),
                ite(bin(Op::Eq, x, y), kw(w, 0), kw(w, 1)),
            ))));
        }
        if starts("log2.f64") {
            return Ok(Some(Val::B(un(Op::FLog2, 64, av[0].b()))));
        }
        if starts("ceil.f64") {
            return Ok(Some(Val::B(un(Op::FCeil, 64, av[0].b()))));
        }
        if starts("floor.f64") {
            return Ok(Some(Val::B(un(Op::FFloor, 64, av[0].b()))));
        }
        if starts("sqrt.f64") {
            return Ok(Some(Val::B(un(Op::FSqrt, 64, av[0].b()))));
        }
        if starts("fptoui.sat.") || starts("fptosi.sat.") {
            let w = self.width(rt);
            if w != 64 && !av[0].b().k {
                return unsup("fptoui.sat width");
            }
            let r = self.fp_to_int(st, av[0].b(), 64, starts("fptosi"))?;
            let r = if w < 64 {
                let v = r.v.min(mask(w));
                k(w, v)
            } else {
                r
            };
            return Ok(Some(Val::B(r)));
        }
        if starts("vector.reduce.") {
            if let Val::A(l) = &av[0] {
                let op = if s.contains(".add.") {
                    Op::Add
                } else if s.contains(".or.") {
                    Op::Or
                } else if s.contains(".and.") {
                    Op::And
                } else if s.contains(".xor.") {
                    Op::Xor
                } else {
                    return unsup(n.to_string());
                };
                let mut r = l[0].b();
                for x in &l[1..] {
                    r = bin(op, r, x.b());
                }
                return Ok(Some(Val::B(r)));
            }
        }
        if starts("load.relative") {
            return unsup("load.relative");
        }
        if starts("ptrmask") {
            return Ok(Some(Val::B(bin(Op::And, av[0].b(), av[1].b()))));
        }
        unsup(format!("intrinsic {}", n))
    }
}

fn new_frame(f: Rc<LFunc>) -> Frame {
    let n = f.f.nregs as usize;
    let phis = f.f.blocks[0].phis as u32;
    Frame { f, bb: 0, ip: phis, regs: vec![None; n], allocas: vec![] }
}
fn attr<'a>(t: &'a str, key: &str) -> Option<&'a str> {
    let i = t.find(key)? + key.len();
    let r = &t[i..];
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    Some(&r[..e])
}
fn qattr(t: &str, key: &str) -> Option<String> {
    let i = t.find(key)? + key.len();
    let r = &t[i..];
    let e = r.find('"')?;
    Some(r[..e].to_string())
}
fn insert(v: &Val, e: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return e.clone();
    }
    if let Val::A(l) = v {
        let mut l2 = (**l).clone();
        l2[ix[0] as usize] = insert(&l2[ix[0] as usize], e, &ix[1..]);
        Val::A(Rc::new(l2))
    } else {
        panic!("UNSUPPORTED: insertvalue")
    }
}
fn sel(c: Bv, x: &Val, y: &Val) -> Val {
    if c.k {
        return if c.v == 1 { x.clone() } else { y.clone() };
    }
    match (x, y) {
        (Val::B(a), Val::B(b)) => Val::B(ite(c, *a, *b)),
        (Val::A(a), Val::A(b)) => Val::A(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| sel(c, x, y)).collect())),
        _ => panic!("UNSUPPORTED: select shape"),
    }
}
fn lift2(x: &Val, y: &Val, f: &dyn Fn(Bv, Bv) -> Bv) -> Val {
    match (x, y) {
        (Val::B(a), Val::B(b)) => Val::B(f(*a, *b)),
        (Val::A(a), Val::A(b)) => Val::A(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| lift2(x, y, f)).collect())),
        _ => panic!("UNSUPPORTED: operand shapes"),
    }
}
fn map1(x: &Val, f: &dyn Fn(Bv) -> Bv) -> Val {
    match x {
        Val::B(a) => Val::B(f(*a)),
        Val::A(a) => Val::A(Rc::new(a.iter().map(|x| map1(x, f)).collect())),
    }
}
fn icmp(p: Pred, x: Bv, y: Bv) -> Bv {
    match p {
        Pred::Eq => bin(Op::Eq, x, y),
        Pred::Ne => not1(bin(Op::Eq, x, y)),
        Pred::Ult => bin(Op::Ult, x, y),
        Pred::Ule => bin(Op::Ule, x, y),
        Pred::Ugt => bin(Op::Ult, y, x),
        Pred::Uge => bin(Op::Ule, y, x),
        Pred::Slt => bin(Op::Slt, x, y),
        Pred::Sle => bin(Op::Sle, x, y),
        Pred::Sgt => bin(Op::Slt, y, x),
        Pred::Sge => bin(Op::Sle, y, x),
    }
}
fn mux(idx: Bv, nb: u16, prefix: u64, lo: u64, hi: u64, leaves: &[Bv]) -> Option<Bv> {
    // subtree covers [prefix, prefix + 2^nb)
    let end = prefix + (1u64 << nb) - 1;
    if end < lo || prefix > hi {
        return None;
    }
    if nb == 0 {
        return Some(leaves[(prefix - lo) as usize]);
    }
    let h = 1u64 << (nb - 1);
    let l = mux(idx, nb - 1, prefix, lo, hi, leaves);
    let r = mux(idx, nb - 1, prefix + h, lo, hi, leaves);
    match (l, r) {
        (Some(a), Some(b)) => {
            if a == b {
                Some(a)
            } else {
                Some(ite(extract(idx, nb - 1, 1), b, a))
            }
        }
        (a, None) => a,
        (None, b) => b,
    }
}
pub fn put_bv(o: &mut Obj, off: usize, b: Bv) {
    let b = if b.w % 8 != 0 { zext(b, (b.w + 7) / 8 * 8) } else { b };
    let n = (b.w / 8) as usize;
    match b.cv() {
        Some(v) => {
            for i in 0..n {
                o.data[off + i] = Cell::C((v >> (8 * i)) as u8);
            }
        }
        None => {
            for i in 0..n {
                o.data[off + i] = Cell::S(b.v as u32, i as u8);
            }
        }
    }
}
pub fn get_bv(o: &Obj, off: usize, n: usize) -> Bv {
    let cells = &o.data[off..off + n];
    let mut all_c = true;
    let mut v = 0u128;
    for (i, c) in cells.iter().enumerate() {
        match c {
            Cell::C(x) => v |= (*x as u128) << (8 * i),
            Cell::U => v |= 0xA5u128 << (8 * i),
            _ => {
                all_c = false;
                break;
            }
        }
    }
    if all_c {
        return kw(8 * n as u16, v);
    }
    if let Cell::S(id, 0) = cells[0] {
        let w = ctx().nodes[id as usize].w;
        if w as usize == 8 * n && cells.iter().enumerate().all(|(i, c)| *c == Cell::S(id, i as u8)) {
            return Bv { w, k: false, v: id as u64 };
        }
    }
    let mut r: Option<Bv> = None;
    let mut i = 0;
    while i < n {
        let piece;
        match cells[i] {
            Cell::S(id, j) => {
                let w = ctx().nodes[id as usize].w;
                let mut l = 1;
                while i + l < n && cells[i + l] == Cell::S(id, j + l as u8) {
                    l += 1;
                }
                piece = extract(Bv { w, k: false, v: id as u64 }, 8 * j as u16, 8 * l as u16);
                i += l;
            }
            Cell::C(x) => {
                piece = k(8, x as u64);
                i += 1;
            }
            Cell::U => {
                piece = k(8, 0xA5);
                i += 1;
            }
        }
        r = Some(match r {
            None => piece,
            Some(p) => concat(piece, p),
        });
    }
    r.unwrap()
}
