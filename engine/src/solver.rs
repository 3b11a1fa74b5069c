//! Z3 back end (C API through libz3): translation of the expression DAG to QF_BV.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(70);
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    tac: P,
    params: P,
    bv: FxMap<u32, P>,
    bl: FxMap<u32, P>,
    sorts: Vec<P>,
    cache: FxMap<Vec<u64>, (Ans, Vec<(u32, u128)>)>,
    pub cached: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub last: f64,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver {
                c,
                tac: std::ptr::null_mut(),
                params: std::ptr::null_mut(),
                bv: FxMap::default(),
                bl: FxMap::default(),
                sorts: vec![std::ptr::null_mut(); 600],
                cache: FxMap::default(),
                cached: 0,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                last: 0.0,
            };
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), timeout_ms);
            s.params = p;
            s
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let w = w as usize;
        if self.sorts[w].is_null() {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, w as u32);
                Z3_inc_ref(self.c, s);
                self.sorts[w] = s;
            }
        }
        self.sorts[w]
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn konst(&mut self, w: u16, v: u128) -> P {
        let t = self.sort(w);
        unsafe {
            if w <= 64 {
                self.keep(Z3_mk_unsigned_int64(self.c, v as u64, t))
            } else {
                self.keep(Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), t))
            }
        }
    }
    pub fn tb(&mut self, b: Bv) -> P {
        debug_assert!(b.w == 1);
        unsafe {
            if b.k {
                let r = if b.v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
                return self.keep(r);
            }
            let id = b.v as u32;
            if let Some(&p) = self.bl.get(&id) {
                return p;
            }
            let n = node(b);
            let c = self.c;
            let r = match n.op {
                Op::Eq => {
                    if n.a.w == 1 {
                        let (x, y) = (self.tb(n.a), self.tb(n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.t(n.a), self.t(n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.t(n.a), self.t(n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::And => {
                    let v = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if n.b.is(1) {
                        let x = self.tb(n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.tb(n.a), self.tb(n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(n.a), self.tb(n.b), self.tb(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.t(b);
                    let one = self.konst(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            };
            let r = self.keep(r);
            self.bl.insert(id, r);
            r
        }
    }
    fn bit(&self, x: P, i: u32) -> P {
        unsafe { Z3_mk_extract(self.c, i, i, x) }
    }
    pub fn t(&mut self, b: Bv) -> P {
        if b.k {
            return self.konst(b.w, b.v as u128);
        }
        let id = b.v as u32;
        if let Some(&p) = self.bv.get(&id) {
            return p;
        }
        let n = node(b);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::BigC => {
                    let v = b.cv().unwrap();
                    self.konst(n.w, v)
                }
                Op::Var => {
                    let s = cs(&format!("v{}_{}", n.a.v, n.w));
                    let t = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), t)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.tb(b);
                    let (o, z) = (self.konst(1, 1), self.konst(1, 0));
                    Z3_mk_ite(c, x, o, z)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let x = self.tb(b);
                    let (o, z) = (self.konst(1, 1), self.konst(1, 0));
                    Z3_mk_ite(c, x, o, z)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(n.a), self.t(n.b), self.t(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.t(n.a);
                    let lo = n.b.v as u32;
                    Z3_mk_extract(c, lo + n.w as u32 - 1, lo, x)
                }
                Op::ZExt => {
                    let x = self.t(n.a);
                    Z3_mk_zero_ext(c, (n.w - n.a.w) as u32, x)
                }
                Op::SExt => {
                    let x = self.t(n.a);
                    Z3_mk_sign_ext(c, (n.w - n.a.w) as u32, x)
                }
                Op::Popcnt => self.popcnt(n.a, n.w),
                Op::Ctlz | Op::Cttz => {
                    let x = self.t(n.a);
                    let aw = n.a.w as u32;
                    let mut r = self.konst(n.w, aw as u128);
                    let one = self.konst(1, 1);
                    for j in 0..aw {
                        // priority: for ctlz the highest set bit wins (outermost)
                        let (bit, val) = if n.op == Op::Ctlz { (j, aw - 1 - j) } else { (aw - 1 - j, aw - 1 - j) };
                        let bt = self.keep(self.bit(x, bit));
                        let cond = self.keep(Z3_mk_eq(c, bt, one));
                        let kv = self.konst(n.w, val as u128);
                        r = self.keep(Z3_mk_ite(c, cond, kv, r));
                    }
                    r
                }
                Op::Pdep => self.pdep(n.a, n.b),
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor
                | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let (x, y) = (self.t(n.a), self.t(n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => Z3_mk_concat(c, x, y),
                    }
                }
                Op::UiToFp | Op::SiToFp => {
                    let e = fp_expand(n.op, n.w, n.a);
                    self.t(e)
                }
                _ => panic!("UNSUPPORTED: floating-point expression reached the solver: {:?}", n.op),
            }
        };
        let r = self.keep(r);
        self.bv.insert(id, r);
        r
    }
    /// balanced tree of narrow additions over the bits of x
    fn popcnt(&mut self, a: Bv, w: u16) -> P {
        // only the bits that can be set; a constant mask around the operand needs no term
        let ones = if a.w <= 64 { info(a).ones & mask(a.w) } else { u64::MAX };
        let mut a = a;
        if !a.k && a.w <= 64 {
            let n = node(a);
            if n.op == Op::And && n.b.k && n.b.v & info(n.a).ones == ones {
                a = n.a;
            }
        }
        let x = self.t(a);
        unsafe {
            let c = self.c;
            let mut cur: Vec<(P, u32)> = (0..a.w as u32)
                .filter(|i| a.w > 64 || ones >> i & 1 == 1)
                .map(|i| (self.keep(self.bit(x, i)), 1))
                .collect();
            if cur.is_empty() {
                return self.konst(w, 0);
            }
            while cur.len() > 1 {
                let mut nx = vec![];
                for p in cur.chunks(2) {
                    if p.len() == 1 {
                        nx.push(p[0]);
                    } else {
                        let wd = p[0].1.max(p[1].1) + 1;
                        let l = Z3_mk_zero_ext(c, wd - p[0].1, p[0].0);
                        let l = self.keep(l);
                        let r = self.keep(Z3_mk_zero_ext(c, wd - p[1].1, p[1].0));
                        nx.push((self.keep(Z3_mk_bvadd(c, l, r)), wd));
                    }
                }
                cur = nx;
            }
            let (p, wd) = cur[0];
            if wd as u16 <= w {
                Z3_mk_zero_ext(c, w as u32 - wd, p)
            } else {
                Z3_mk_extract(c, w as u32 - 1, 0, p)
            }
        }
    }
    /// pdep(src, mask): bit i = mask_i & src[popcount(mask & ((1<<i)-1))]
    fn pdep(&mut self, src: Bv, m: Bv) -> P {
        let (s, x) = (self.t(src), self.t(m));
        let w = src.w as u32;
        unsafe {
            let c = self.c;
            // running source shifted right once per set mask bit
            let mut cur = s;
            let one = self.konst(1, 1);
            let mut bits: Vec<P> = vec![];
            for i in 0..w {
                let mi = self.keep(self.bit(x, i));
                let s0 = self.keep(self.bit(cur, 0));
                bits.push(self.keep(Z3_mk_bvand(c, mi, s0)));
                let cond = self.keep(Z3_mk_eq(c, mi, one));
                let k1 = self.konst(w as u16, 1);
                let sh = self.keep(Z3_mk_bvlshr(c, cur, k1));
                cur = self.keep(Z3_mk_ite(c, cond, sh, cur));
            }
            let mut r = bits[0];
            for i in 1..w as usize {
                r = self.keep(Z3_mk_concat(c, bits[i], r));
            }
            r
        }
    }
    fn tactic(&mut self) -> P {
        if self.tac.is_null() {
            unsafe {
                let c = self.c;
                let names = std::env::var("VSE_TACTIC").unwrap_or("qfbv".into());
                let mut t: P = std::ptr::null_mut();
                for n in names.split(',') {
                    let x = Z3_mk_tactic(c, cs(n).as_ptr());
                    Z3_tactic_inc_ref(c, x);
                    t = if t.is_null() {
                        x
                    } else {
                        let y = Z3_tactic_and_then(c, t, x);
                        Z3_tactic_inc_ref(c, y);
                        y
                    };
                }
                self.tac = t;
            }
        }
        self.tac
    }
    /// Is pc /\ extra satisfiable?  On Sat returns a model (extending `base` on
    /// variables that the relevant constraints do not mention).
    pub fn check(&mut self, pc: &[Bv], extra: Bv, nvars: &[u16], base: &Model) -> (Ans, Option<Model>) {
        let t0 = Instant::now();
        // slice: keep only constraints (transitively) sharing variables with `extra`
        let mut rel: Vec<Bv> = vec![];
        let mut vars = varset(extra);
        {
            let mut rest: Vec<(Bv, Vs)> = pc.iter().map(|&b| (b, varset(b))).collect();
            loop {
                let before = rest.len();
                let mut nx = Vec::with_capacity(before);
                for (b, v) in rest {
                    if v.meets(&vars) {
                        vars.join(&v);
                        rel.push(b);
                    } else {
                        nx.push((b, v));
                    }
                }
                rest = nx;
                if rest.len() == before {
                    break;
                }
            }
        }
        let mut key: Vec<u64> = rel.iter().map(|b| b.v << 1 | b.k as u64).collect();
        key.sort_unstable();
        key.dedup();
        key.push(extra.v << 1 | extra.k as u64);
        if let Some((ans, asg)) = self.cache.get(&key) {
            self.cached += 1;
            self.last = 0.0;
            let model = (*ans == Ans::Sat).then(|| {
                let mut vals: Vec<u128> = (0..nvars.len()).map(|i| *base.vals.get(i).unwrap_or(&0)).collect();
                for (i, v) in asg {
                    vals[*i as usize] = *v;
                }
                Model::new(vals)
            });
            return (*ans, model);
        }
        self.queries += 1;
        let mut asg: Vec<(u32, u128)> = vec![];
        unsafe {
            let c = self.c;
            let tac = self.tactic();
            let s = Z3_mk_solver_from_tactic(c, tac);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for &b in &rel {
                let p = self.tb(b);
                Z3_solver_assert(c, s, p);
            }
            let lit = self.tb(extra);
            Z3_solver_assert(c, s, lit);
            let r = Z3_solver_check_assumptions(c, s, 0, std::ptr::null());
            let ans = match r {
                1 => Ans::Sat,
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            };
            let mut model = None;
            if ans == Ans::Sat {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals: Vec<u128> = (0..nvars.len()).map(|i| *base.vals.get(i).unwrap_or(&0)).collect();
                for (i, &w) in nvars.iter().enumerate() {
                    if !vars.has(i as u32) {
                        continue;
                    }
                    let p = self.t(var(i as u32, w));
                    let mut out: P = std::ptr::null_mut();
                    if !Z3_model_eval(c, m, p, true, &mut out) {
                        panic!("model eval failed");
                    }
                    Z3_inc_ref(c, out);
                    let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, out));
                    vals[i] = st.to_str().unwrap().parse::<u128>().expect("numeral");
                    asg.push((i as u32, vals[i]));
                    Z3_dec_ref(c, out);
                }
                Z3_model_dec_ref(c, m);
                model = Some(Model::new(vals));
            }
            if ans != Ans::Unknown && self.cache.len() < 2_000_000 {
                self.cache.insert(key, (ans, asg));
            }
            let dt = t0.elapsed().as_secs_f64();
            if let Ok(d) = std::env::var("VSE_DUMP") {
                if dt > std::env::var("VSE_DUMPMIN").ok().and_then(|x| x.parse().ok()).unwrap_or(0.5) {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    std::fs::write(
                        format!("{}/q{}_{:?}_{:.1}.smt2", d, self.queries, ans, dt),
                        format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t),
                    )
                    .unwrap();
                }
            }
            Z3_solver_dec_ref(c, s);
            self.time += dt;
            self.last = dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            match ans {
                Ans::Sat => self.sat += 1,
                Ans::Unsat => self.unsat += 1,
                Ans::Unknown => self.unknown += 1,
            }
            (ans, model)
        }
    }
}

/// set of variable ids below 256
#[derive(Clone, Copy, Default)]
pub struct Vs([u64; 4]);
impl Vs {
    pub fn meets(&self, o: &Vs) -> bool {
        (0..4).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn join(&mut self, o: &Vs) {
        for i in 0..4 {
            self.0[i] |= o.0[i];
        }
    }
    fn has(&self, i: u32) -> bool {
        let i = (i as usize).min(255);
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
}
thread_local! { static VS: std::cell::RefCell<FxMap<u32, Vs>> = Default::default(); }
pub fn varset(b: Bv) -> Vs {
    if b.k {
        return Vs::default();
    }
    if let Some(v) = VS.with(|m| m.borrow().get(&(b.v as u32)).copied()) {
        return v;
    }
    let n = node(b);
    let mut r = Vs::default();
    match n.op {
        Op::Var => {
            let i = (n.a.v as usize).min(255);
            r.0[i / 64] |= 1 << (i % 64);
        }
        Op::BigC => {}
        _ => {
            r = varset(n.a);
            r.join(&varset(n.b));
            r.join(&varset(n.c));
        }
    }
    VS.with(|m| m.borrow_mut().insert(b.v as u32, r));
    r
}
