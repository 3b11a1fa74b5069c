//! Hash-consed bit-vector expression DAG with local simplification, static
//! range / possible-ones analysis and concrete evaluation.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// A bit-vector value: a constant (width <= 64) or a node of the arena.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Bv {
    pub w: u16,
    pub k: bool,
    pub v: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    BigC,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Popcnt,
    Ctlz,
    Cttz,
    Pdep,
    UiToFp,
    SiToFp,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLog2,
    FCeil,
    FFloor,
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Bv,
    pub b: Bv,
    pub c: Bv,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u64,
    pub hi: u64,
    pub ones: u64,
    /// bits that are set in every value
    pub must: u64,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, u32>,
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx { nodes: vec![], info: vec![], map: FxMap::default() });
        }
        CTX.as_mut().unwrap()
    }
}

pub fn mask(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub const Z: Bv = Bv { w: 0, k: true, v: 0 };
pub fn k(w: u16, v: u64) -> Bv {
    debug_assert!(w <= 64);
    Bv { w, k: true, v: v & mask(w) }
}
pub fn kw(w: u16, v: u128) -> Bv {
    let v = v & mask128(w);
    if w <= 64 {
        k(w, v as u64)
    } else {
        assert!(w <= 128, "constant wider than 128 bits");
        intern(Node { op: Op::BigC, w, a: k(64, v as u64), b: k(64, (v >> 64) as u64), c: Z })
    }
}
pub const TRUE: Bv = Bv { w: 1, k: true, v: 1 };
pub const FALSE: Bv = Bv { w: 1, k: true, v: 0 };
pub fn kb(b: bool) -> Bv {
    if b {
        TRUE
    } else {
        FALSE
    }
}
pub fn node(b: Bv) -> Node {
    debug_assert!(!b.k);
    ctx().nodes[b.v as usize]
}
impl Bv {
    pub fn cv(self) -> Option<u128> {
        if self.k {
            Some(self.v as u128)
        } else {
            let n = node(self);
            if n.op == Op::BigC {
                Some(n.a.v as u128 | (n.b.v as u128) << 64)
            } else {
                None
            }
        }
    }
    pub fn c64(self) -> Option<u64> {
        if self.k {
            Some(self.v)
        } else {
            None
        }
    }
    pub fn is(self, v: u64) -> bool {
        self.k && self.v == v
    }
}
fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn info(b: Bv) -> Info {
    if b.k {
        Info { lo: b.v, hi: b.v, ones: b.v, must: b.v }
    } else {
        ctx().info[b.v as usize]
    }
}

pub fn info_of(n: &Node, a: Info, b: Info, c: Info) -> Info {
    let m = mask(n.w);
    let full = Info { lo: 0, hi: m, ones: m, must: 0 };
    if n.w > 64 {
        return full;
    }
    let mut r = full;
    match n.op {
        Op::Add => {
            let (h, o) = a.hi.overflowing_add(b.hi);
            if !o && h <= m {
                r.lo = a.lo + b.lo;
                r.hi = h;
            } else if n.w == 64 && o {
                let (l, o2) = a.lo.overflowing_add(b.lo);
                if o2 {
                    // every value wraps
                    r.lo = l;
                    r.hi = h;
                }
            }
            let tz = a.ones.trailing_zeros().min(b.ones.trailing_zeros());
            if tz >= 64 {
                r.ones = 0;
            } else {
                r.ones = m & !((1u64 << tz) - 1);
            }
        }
        Op::Sub => {
            if a.lo >= b.hi {
                r.lo = a.lo - b.hi;
                r.hi = a.hi - b.lo;
            }
            let tz = a.ones.trailing_zeros().min(b.ones.trailing_zeros());
            if tz >= 64 {
                r.ones = 0;
            } else {
                r.ones = m & !((1u64 << tz) - 1);
            }
        }
        Op::Mul => {
            if let Some(h) = a.hi.checked_mul(b.hi) {
                if h <= m {
                    r.lo = a.lo * b.lo;
                    r.hi = h;
                }
            }
            let tz = (a.ones.trailing_zeros() + b.ones.trailing_zeros()).min(64);
            if tz >= 64 {
                r.ones = 0;
                r.lo = 0;
                r.hi = 0;
            } else {
                r.ones = m & !((1u64 << tz) - 1);
            }
        }
        Op::UDiv => {
            if b.lo > 0 {
                r.lo = a.lo / b.hi;
                r.hi = a.hi / b.lo;
            }
        }
        Op::URem => {
            if b.lo > 0 {
                r.hi = a.hi.min(b.hi - 1);
                if a.hi < b.lo {
                    r.lo = a.lo;
                }
            }
        }
        Op::And => {
            r.ones = a.ones & b.ones;
            r.hi = a.hi.min(b.hi).min(r.ones);
            // x & (x - 1) never has the lowest bit x can have; x & -x is not zero if x is not
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if x.k || y.k {
                    continue;
                }
                let ny = node(y);
                let o = info(x).ones;
                if ny.op == Op::Add && ny.a == x && ny.b.is(m) {
                    r.ones &= !(o & o.wrapping_neg());
                    r.hi = r.hi.min(r.ones);
                }
                if ny.op == Op::Sub && ny.a.is(0) && ny.b == x && info(x).lo > 0 {
                    r.lo = 1;
                }
            }
        }
        Op::Or => {
            r.ones = a.ones | b.ones;
            r.lo = a.lo.max(b.lo);
            r.hi = r.ones;
            if a.ones & b.ones == 0 {
                r.hi = r.hi.min(a.hi.saturating_add(b.hi));
            }
        }
        Op::Xor => {
            r.ones = a.ones | b.ones;
            r.hi = r.ones;
        }
        Op::Shl => {
            if n.b.k {
                let s = n.b.v;
                if s >= n.w as u64 {
                    return Info { lo: 0, hi: 0, ones: 0, must: 0 };
                }
                r.ones = (a.ones << s) & m;
                if a.hi <= (m >> s) {
                    r.lo = a.lo << s;
                    r.hi = a.hi << s;
                } else {
                    r.hi = r.ones;
                }
            } else if b.hi < n.w as u64 && a.hi <= (m >> b.hi) {
                r.lo = a.lo << b.lo;
                r.hi = a.hi << b.hi;
            }
        }
        Op::LShr => {
            if n.b.k {
                let s = n.b.v;
                if s >= n.w as u64 {
                    return Info { lo: 0, hi: 0, ones: 0, must: 0 };
                }
                r.ones = a.ones >> s;
                r.lo = a.lo >> s;
                r.hi = a.hi >> s;
            } else {
                let bl = b.lo.min(64);
                r.hi = if bl >= 64 { 0 } else { a.hi >> bl };
                r.lo = if b.hi >= 64 { 0 } else { a.lo >> b.hi };
            }
        }
        Op::Ite => {
            r.lo = b.lo.min(c.lo);
            r.hi = b.hi.max(c.hi);
            r.ones = b.ones | c.ones;
        }
        Op::ZExt => {
            r = a;
        }
        Op::SExt => {
            let sb = 1u64 << (n.a.w - 1);
            if a.ones & sb == 0 || a.hi < sb {
                r = a;
            }
        }
        Op::Extract => {
            // imm in b
            if n.a.w <= 64 {
                let s = n.b.v;
                if s < 64 {
                    r.ones = (a.ones >> s) & m;
                    if (a.hi >> s) <= m {
                        r.lo = a.lo >> s;
                        r.hi = a.hi >> s;
                    } else {
                        r.hi = r.ones;
                    }
                }
            }
        }
        Op::Concat => {
            let lw = n.b.w;
            r.ones = (a.ones << lw) | b.ones;
            r.lo = (a.lo << lw) + b.lo;
            r.hi = (a.hi << lw) + b.hi;
        }
        Op::Popcnt => {
            r.hi = (a.ones.count_ones() as u64).min(m);
            if n.a.w > 64 {
                r.hi = n.a.w as u64;
            }
            r.lo = if a.lo > 0 { 1 } else { 0 };
        }
        Op::Ctlz => {
            if n.a.w <= 64 {
                r.hi = (a.lo.leading_zeros() as u64) - (64 - n.a.w as u64);
                r.lo = (a.hi.leading_zeros() as u64) - (64 - n.a.w as u64);
            } else {
                r.hi = n.a.w as u64;
            }
        }
        Op::Cttz => {
            r.hi = n.a.w as u64;
            if a.lo > 0 && n.a.w <= 64 {
                r.hi = 63 - a.hi.leading_zeros() as u64;
            }
            r.lo = (a.ones.trailing_zeros() as u64).min(r.hi);
        }
        Op::Pdep => {
            r.ones = b.ones;
            r.hi = b.hi.min(b.ones);
        }
        _ => {}
    }
    r.must = match n.op {
        Op::And => a.must & b.must,
        Op::Or => a.must | b.must,
        Op::Xor => (a.must & !b.ones) | (b.must & !a.ones),
        Op::Shl if n.b.k && n.b.v < 64 => a.must << n.b.v,
        Op::LShr if n.b.k && n.b.v < 64 => a.must >> n.b.v,
        Op::Ite => b.must & c.must,
        Op::ZExt => a.must,
        Op::Extract if n.a.w <= 64 => a.must >> n.b.v,
        Op::Concat => (a.must << n.b.w) | b.must,
        _ => 0,
    } & m;
    if r.lo < r.must {
        r.lo = r.must;
    }
    r.hi = r.hi.min(m);
    // tighten with ones
    if r.hi > r.ones {
        r.hi = r.ones;
    }
    if r.lo > r.hi {
        r.lo = r.hi;
    }
    // ones from hi
    if r.hi < u64::MAX {
        let hb = 64 - r.hi.leading_zeros();
        r.ones &= if hb >= 64 { u64::MAX } else { (1u64 << hb) - 1 };
    }
    r
}

pub fn intern(n: Node) -> Bv {
    let c = ctx();
    if let Some(&i) = c.map.get(&n) {
        return Bv { w: n.w, k: false, v: i as u64 };
    }
    let mut inf = if n.op == Op::BigC {
        Info { lo: 0, hi: u64::MAX, ones: u64::MAX, must: 0 }
    } else {
        info_of(&n, info(n.a), info(n.b), info(n.c))
    };
    if n.op == Op::Var && n.b.v == 0 {
        inf.hi = mask(n.w);
    }
    let i = c.nodes.len() as u32;
    c.nodes.push(n);
    c.info.push(inf);
    c.map.insert(n, i);
    Bv { w: n.w, k: false, v: i as u64 }
}
fn mk(op: Op, w: u16, a: Bv, b: Bv, c: Bv) -> Bv {
    let r = intern(Node { op, w, a, b, c });
    // a node whose static range is a single value is that constant
    if !r.k && w <= 64 && op != Op::Var {
        let i = info(r);
        if i.lo == i.hi {
            return k(w, i.lo);
        }
    }
    r
}
pub fn var(id: u32, w: u16) -> Bv {
    intern(Node { op: Op::Var, w, a: k(32, id as u64), b: k(8, 0), c: Z })
}

pub fn fold(op: Op, w: u16, a: u128, aw: u16, b: u128, c: u128) -> u128 {
    let m = mask128(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = (b.min(w as u128 - 1)) as u32;
            (sx(a, aw) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sx(a, aw) as u128,
        Op::Extract => a >> b,
        Op::Popcnt => a.count_ones() as u128,
        Op::Ctlz => (a.leading_zeros() as u128) - (128 - aw as u128),
        Op::Cttz => (a.trailing_zeros() as u128).min(aw as u128),
        Op::Pdep => {
            let (mut mm, mut res, mut bb) = (b as u64, 0u64, 1u64);
            while mm != 0 {
                if a as u64 & bb != 0 {
                    res |= mm & mm.wrapping_neg();
                }
                mm &= mm - 1;
                bb = bb.wrapping_add(bb);
            }
            res as u128
        }
        Op::UiToFp => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::SiToFp => {
            if w == 64 {
                (sx(a, aw) as f64).to_bits() as u128
            } else {
                (sx(a, aw) as f32).to_bits() as u128
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLog2 | Op::FCeil | Op::FFloor | Op::FSqrt => {
            assert!(w == 64, "f32 arithmetic unsupported");
            let x = f64::from_bits(a as u64);
            let y = f64::from_bits(b as u64);
            (match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FLog2 => x.log2(),
                Op::FCeil => x.ceil(),
                Op::FFloor => x.floor(),
                _ => x.sqrt(),
            })
            .to_bits() as u128
        }
        Op::Concat | Op::BigC | Op::Var => unreachable!(),
    };
    r & m
}

/// Integer to IEEE-754 conversion (round to nearest even), spelled out over bit-vectors.
pub fn fp_expand(op: Op, w: u16, a: Bv) -> Bv {
    assert!(a.w <= 64, "UNSUPPORTED: wide integer to float");
    let neg = if op == Op::SiToFp { bin(Op::Slt, a, k(a.w, 0)) } else { FALSE };
    let mag = if op == Op::SiToFp { ite(neg, bin(Op::Sub, k(a.w, 0), a), a) } else { a };
    let x = if mag.w < 64 { zext(mag, 64) } else { mag };
    let (mb, bias, fw) = if w == 64 { (53u64, 1023u64, 52u64) } else { (24, 127, 23) };
    let lz = un(Op::Ctlz, 64, x);
    let norm = bin(Op::Shl, x, lz);
    let drop = 64 - mb;
    let mant = bin(Op::LShr, norm, k(64, drop));
    let rem = bin(Op::And, norm, k(64, (1 << drop) - 1));
    let half = k(64, 1 << (drop - 1));
    let up = bin(
        Op::Or,
        bin(Op::Ult, half, rem),
        bin(Op::And, bin(Op::Eq, rem, half), extract(mant, 0, 1)),
    );
    let m2 = bin(Op::Add, mant, zext(up, 64));
    let e = bin(Op::Sub, k(64, bias + 62), lz);
    let r = bin(Op::Add, bin(Op::Shl, e, k(64, fw)), m2);
    let r = ite(bin(Op::Eq, x, k(64, 0)), k(64, 0), r);
    let r = if w == 64 { r } else { extract(r, 0, 32) };
    bin(Op::Or, r, ite(neg, k(w, 1 << (w - 1)), k(w, 0)))
}

pub fn not1(a: Bv) -> Bv {
    debug_assert!(a.w == 1);
    bin(Op::Xor, a, TRUE)
}
pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

/// (base, M, C) with value (base & M) ^ C
fn peel(x: Bv) -> (Bv, u64, u64) {
    let f = mask(x.w);
    if x.k {
        return (x, 0, x.v);
    }
    // collect the operations outside in, then apply them inside out
    let mut ops = vec![];
    let mut e = x;
    loop {
        if e.k {
            break;
        }
        let n = node(e);
        if n.b.k && matches!(n.op, Op::And | Op::Or | Op::Xor) {
            ops.push((n.op, n.b.v));
            e = n.a;
        } else {
            break;
        }
    }
    let (mut m, mut c) = (f, 0);
    for (op, v) in ops.into_iter().rev() {
        match op {
            Op::And => {
                m &= v;
                c &= v;
            }
            Op::Or => {
                m &= !v;
                c |= v;
            }
            _ => c ^= v,
        }
    }
    (e, m & f, c & f)
}
/// bitwise operation of two expressions over the bits of the same base
fn bitwise(op: Op, a: Bv, b: Bv) -> Option<Bv> {
    let plain = |x: Bv| {
        x.k || {
            let n = node(x);
            !(n.b.k && matches!(n.op, Op::And | Op::Or | Op::Xor))
        }
    };
    if plain(a) && plain(b) {
        return None;
    }
    let ((ba, ma, ca), (bb, mb, cb)) = (peel(a), peel(b));
    let base = if !ba.k { ba } else { bb };
    if base.k || (!ba.k && !bb.k && ba != bb) {
        return None;
    }
    let f = |x: u64, y: u64| match op {
        Op::And => x & y,
        Op::Or => x | y,
        _ => x ^ y,
    };
    let w = base.w;
    let (v0, v1) = (f(ca, cb), f(ca ^ ma, cb ^ mb));
    let i = info(base);
    let m = (v0 ^ v1) & i.ones & !i.must & mask(w);
    let c = ((v0 & !i.must) | (v1 & i.must)) & mask(w);
    if m == 0 {
        return Some(k(w, c));
    }
    let y = if m == i.ones & mask(w) { base } else { bin(Op::And, base, k(w, m)) };
    Some(if y.k {
        k(w, y.v ^ c)
    } else if c == 0 {
        y
    } else if c & m == 0 {
        mk(Op::Or, w, y, k(w, c), Z)
    } else {
        mk(Op::Xor, w, y, k(w, c), Z)
    })
}
pub fn bin(op: Op, a: Bv, b: Bv) -> Bv {
    debug_assert!(a.w == b.w, "{:?} {:?} {:?}", op, a, b);
    let w = if is_cmp(op) { 1 } else { a.w };
    if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
        return kw(w, fold(op, w, x, a.w, y, 0));
    }
    let aw = a.w;
    let (mut a, mut b) = (a, b);
    match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
            if a.k || (!b.k && a.v > b.v) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        _ => {}
    }
    let full = mask(aw);
    if aw > 1 && aw <= 64 && matches!(op, Op::And | Op::Or | Op::Xor) {
        if let Some(r) = bitwise(op, a, b) {
            return r;
        }
    }
    match op {
        Op::Add => {
            if b.is(0) {
                return a;
            }
            if b.is(full) && aw > 1 && aw <= 64 {
                // the lowest bit that can be set is set: no borrow beyond it
                let i = info(a);
                let p = i.ones.trailing_zeros();
                if p < 64 && i.must >> p & 1 == 1 {
                    return bin(Op::Or, bin(Op::And, a, k(aw, !(1u64 << p))), k(aw, (1u64 << p) - 1));
                }
            }
            if aw == 1 {
                return bin(Op::Xor, a, b);
            }
            if !a.k {
                let n = node(a);
                if n.op == Op::Add && n.b.k {
                    if b.k {
                        return bin(Op::Add, n.a, k(aw, n.b.v.wrapping_add(b.v)));
                    }
                    return bin(Op::Add, bin(Op::Add, n.a, b), n.b);
                }
                if n.op == Op::Sub && n.b == b {
                    return n.a;
                }
                // (c - x) + c2
                if n.op == Op::Sub && n.a.k && b.k {
                    return bin(Op::Sub, k(aw, n.a.v.wrapping_add(b.v)), n.b);
                }
            }
            if !b.k {
                let n = node(b);
                if n.op == Op::Add && n.b.k {
                    return bin(Op::Add, bin(Op::Add, a, n.a), n.b);
                }
                if n.op == Op::Sub && n.b == a {
                    return n.a;
                }
            }
            if b.k && !a.k {
                let n = node(a);
                if n.op == Op::Ite && n.b.k && n.c.k {
                    return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                }
            }
            if aw <= 64 {
                if let Some(r) = lin(op, a, b) {
                    return r;
                }
            }
        }
        Op::Sub => {
            if b.k {
                return bin(Op::Add, a, k(aw, b.v.wrapping_neg()));
            }
            if a == b {
                return kw(aw, 0);
            }
            if aw == 1 {
                return bin(Op::Xor, a, b);
            }
            if !a.k {
                let n = node(a);
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                    if n.b.k {
                        return bin(Op::Add, bin(Op::Sub, n.a, b), n.b);
                    }
                }
            }
            {
                let n = node(b);
                if n.op == Op::Add && n.b.k {
                    // a - (x + c) = (a - x) - c
                    return bin(Op::Add, bin(Op::Sub, a, n.a), k(aw, n.b.v.wrapping_neg()));
                }
                if n.op == Op::Sub && n.a == a {
                    return n.b;
                }
            }
            if aw <= 64 {
                if let Some(r) = lin(op, a, b) {
                    return r;
                }
            }
        }
        Op::Mul => {
            if b.k && aw <= 64 {
                if b.v == 0 {
                    return b;
                }
                if b.v == 1 {
                    return a;
                }
                if b.v.is_power_of_two() {
                    return bin(Op::Shl, a, k(aw, b.v.trailing_zeros() as u64));
                }
            }
        }
        Op::UDiv => {
            if b.k && b.v.is_power_of_two() {
                return bin(Op::LShr, a, k(aw, b.v.trailing_zeros() as u64));
            }
        }
        Op::URem => {
            if b.k && b.v.is_power_of_two() {
                return bin(Op::And, a, k(aw, b.v - 1));
            }
            if aw <= 64 && info(a).hi < info(b).lo {
                return a;
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if b.k {
                if b.v == 0 {
                    return b;
                }
                if b.v == full {
                    return a;
                }
                if aw <= 64 && info(a).ones & !b.v == 0 {
                    return a;
                }
                if !a.k {
                    let n = node(a);
                    if n.op == Op::And && n.b.k {
                        return bin(Op::And, n.a, k(aw, n.b.v & b.v));
                    }
                    if n.op == Op::ZExt && n.a.w <= 64 {
                        return zext(bin(Op::And, n.a, k(n.a.w, b.v)), aw);
                    }
                    if n.op == Op::Ite && n.b.k && n.c.k {
                        return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                    }
                    // (x + c) & lowmask : drop high bits of c
                    if n.op == Op::Add && n.b.k && (b.v & (b.v + 1)) == 0 && (n.b.v & !b.v) != 0 {
                        return bin(Op::And, bin(Op::Add, n.a, k(aw, n.b.v & b.v)), b);
                    }
                }
            }
            if !a.k && !b.k && aw > 1 && aw <= 64 {
                // constants of nested conjunctions move outwards
                let (na, nb) = (node(a), node(b));
                if na.op == Op::And && na.b.k {
                    return bin(Op::And, bin(Op::And, na.a, b), na.b);
                }
                if nb.op == Op::And && nb.b.k {
                    return bin(Op::And, bin(Op::And, a, nb.a), nb.b);
                }
            }
            if aw == 1 {
                if !b.k && !a.k {
                    let (na, nb) = (node(a), node(b));
                    if (na.op == Op::Xor && na.b.is(1) && na.a == b) || (nb.op == Op::Xor && nb.b.is(1) && nb.a == a) {
                        return FALSE;
                    }
                }
            }
            if aw <= 64 && info(a).ones & info(b).ones == 0 {
                return k(aw, 0);
            }
            // x & (x - 1) and x & -x: bits above the lowest bit that is surely set are not
            // touched, so only the window below it takes part in the arithmetic
            if aw <= 64 && !a.k && !b.k {
                for (x, y) in [(a, b), (b, a)] {
                    let n = node(y);
                    let dec = n.op == Op::Add && n.a == x && n.b.is(full);
                    let neg = n.op == Op::Sub && n.a.is(0) && n.b == x;
                    let i = info(x);
                    if !(dec || neg) || i.must == 0 {
                        continue;
                    }
                    let (p, m) = (i.ones.trailing_zeros() as u16, i.must.trailing_zeros() as u16);
                    if p == m {
                        return if dec { bin(Op::And, x, k(aw, !(1u64 << p))) } else { k(aw, 1 << p) };
                    }
                    let ww = m - p + 1;
                    if ww >= aw {
                        break;
                    }
                    let l = extract(x, p, ww);
                    let r = if dec { bin(Op::Add, l, k(ww, u64::MAX)) } else { bin(Op::Sub, k(ww, 0), l) };
                    let d = bin(Op::Shl, zext(bin(Op::And, l, r), aw), k(aw, p as u64));
                    if neg {
                        return d;
                    }
                    let keep = bin(Op::And, x, k(aw, if m == 63 { 0 } else { u64::MAX << (m + 1) }));
                    return bin(Op::Or, keep, d);
                }
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if b.is(0) {
                return a;
            }
            if b.k && b.v == full && aw <= 64 {
                return b;
            }
            if !a.k && !b.k && aw > 1 && aw <= 64 {
                let (na, nb) = (node(a), node(b));
                if na.op == Op::And && nb.op == Op::And && na.b.k && nb.b.k && na.b == nb.b {
                    return bin(Op::And, bin(op, na.a, nb.a), na.b);
                }
            }
            if aw == 1 && !a.k && !b.k {
                let (na, nb) = (node(a), node(b));
                if (na.op == Op::Xor && na.b.is(1) && na.a == b) || (nb.op == Op::Xor && nb.b.is(1) && nb.a == a) {
                    return TRUE;
                }
            }
        }
        Op::Xor => {
            if a == b {
                return kw(aw, 0);
            }
            if b.is(0) {
                return a;
            }
            if !a.k && !b.k && aw > 1 && aw <= 64 {
                let (na, nb) = (node(a), node(b));
                if na.op == Op::And && nb.op == Op::And && na.b.k && nb.b.k && na.b == nb.b {
                    return bin(Op::And, bin(op, na.a, nb.a), na.b);
                }
            }
            if b.k && !a.k {
                let n = node(a);
                if n.op == Op::Xor && n.b.k {
                    return bin(Op::Xor, n.a, k(aw, n.b.v ^ b.v));
                }
                if aw == 1 {
                    // negate comparison
                    match n.op {
                        Op::Ult => return bin(Op::Ule, n.b, n.a),
                        Op::Ule => return bin(Op::Ult, n.b, n.a),
                        Op::Slt => return bin(Op::Sle, n.b, n.a),
                        Op::Sle => return bin(Op::Slt, n.b, n.a),
                        Op::Ite => {
                            if n.b.k || n.c.k {
                                return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if b.is(0) {
                return a;
            }
            if a.is(0) {
                return a;
            }
            if b.k && b.v >= aw as u64 && op != Op::AShr {
                return kw(aw, 0);
            }
            if b.k && !a.k {
                let n = node(a);
                if n.op == op && n.b.k && op != Op::AShr {
                    let s = n.b.v + b.v;
                    return if s >= aw as u64 { kw(aw, 0) } else { bin(op, n.a, kw(aw, s as u128)) };
                }
                if op == Op::LShr && n.op == Op::Shl && n.b == b && aw <= 64 {
                    return bin(Op::And, n.a, k(aw, full >> b.v));
                }
                if op == Op::Shl && n.op == Op::LShr && n.b == b && aw <= 64 {
                    return bin(Op::And, n.a, k(aw, full << b.v));
                }
                if op == Op::LShr && n.op == Op::And && n.b.k {
                    return bin(Op::And, bin(op, n.a, b), k(aw, n.b.v >> b.v));
                }
                if op == Op::Shl && n.op == Op::And && n.b.k {
                    return bin(Op::And, bin(op, n.a, b), k(aw, n.b.v << b.v));
                }
                if op != Op::AShr && matches!(n.op, Op::Or | Op::Xor) && n.b.k && aw <= 64 {
                    let c = if op == Op::Shl { n.b.v << b.v } else { n.b.v >> b.v };
                    return bin(n.op, bin(op, n.a, b), k(aw, c));
                }
                if op == Op::LShr && n.op == Op::ZExt {
                    return if b.v >= n.a.w as u64 { kw(aw, 0) } else { zext(bin(op, n.a, kw(n.a.w, b.v as u128)), aw) };
                }
                if op == Op::LShr && n.op == Op::Concat && b.v >= n.b.w as u64 {
                    return bin(op, zext(n.a, aw), kw(aw, b.v as u128 - n.b.w as u128));
                }
                if n.op == Op::Ite && n.b.k && n.c.k {
                    return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                }
                // (x + c) >> s with c multiple of 2^s and no wrap
                if op == Op::LShr && n.op == Op::Add && n.b.k && aw <= 64 && b.v < 64 && n.b.v & ((1 << b.v) - 1) == 0 {
                    if info(n.a).hi.checked_add(n.b.v).map_or(false, |h| h <= full) {
                        return bin(Op::Add, bin(op, n.a, b), k(aw, n.b.v >> b.v));
                    }
                }
            }
            if op == Op::AShr && aw <= 64 && info(a).hi < (1u64 << (aw - 1)) {
                return bin(Op::LShr, a, b);
            }
        }
        Op::Eq => {
            if a == b {
                return TRUE;
            }
            if aw == 1 && b.k {
                return if b.v == 1 { a } else { not1(a) };
            }
            if aw <= 64 {
                let (ia, ib) = (info(a), info(b));
                if ia.hi < ib.lo || ib.hi < ia.lo {
                    return FALSE;
                }
                if b.k && b.v & !ia.ones != 0 {
                    return FALSE;
                }
            }
            if b.k && !a.k {
                let n = node(a);
                match n.op {
                    Op::ZExt => return bin(Op::Eq, n.a, kw(n.a.w, b.v as u128)),
                    Op::Add if n.b.k => return bin(Op::Eq, n.a, k(aw, b.v.wrapping_sub(n.b.v))),
                    Op::Xor if n.b.k => return bin(Op::Eq, n.a, k(aw, b.v ^ n.b.v)),
                    Op::Ite if n.b.k || n.c.k => {
                        return ite(n.a, bin(Op::Eq, n.b, b), bin(Op::Eq, n.c, b));
                    }
                    Op::Sub if b.v == 0 => return bin(Op::Eq, n.a, n.b),
                    Op::Sub if n.a.k => return bin(Op::Eq, n.b, k(aw, n.a.v.wrapping_sub(b.v))),
                    Op::Xor if b.v == 0 => return bin(Op::Eq, n.a, n.b),
                    Op::Shl if n.b.k && aw <= 64 && n.b.v < 64 => {
                        let s = n.b.v;
                        if b.v & ((1 << s) - 1) != 0 {
                            return FALSE;
                        }
                        if info(n.a).hi <= (full >> s) {
                            return bin(Op::Eq, n.a, k(aw, b.v >> s));
                        }
                    }
                    Op::Concat => {
                        if aw <= 64 {
                            return bin(
                                Op::And,
                                bin(Op::Eq, n.a, k(n.a.w, b.v >> n.b.w)),
                                bin(Op::Eq, n.b, k(n.b.w, b.v)),
                            );
                        }
                    }
                    _ => {}
                }
            }
            if !a.k && !b.k {
                let (na, nb) = (node(a), node(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && na.a.w == nb.a.w {
                    return bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return bin(Op::Eq, na.a, nb.a);
                }
            }
        }
        Op::Ult | Op::Ule => {
            if aw == 64 {
                if let Some((lo, hi)) = diff_range(a, b) {
                    if hi < 0 || (op == Op::Ule && hi == 0) {
                        return TRUE;
                    }
                    if lo > 0 || (op == Op::Ult && lo == 0) {
                        return FALSE;
                    }
                }
            }
            if a == b {
                return kb(op == Op::Ule);
            }
            if aw <= 64 {
                let (ia, ib) = (info(a), info(b));
                if op == Op::Ult {
                    if ia.hi < ib.lo {
                        return TRUE;
                    }
                    if ia.lo >= ib.hi {
                        return FALSE;
                    }
                } else {
                    if ia.hi <= ib.lo {
                        return TRUE;
                    }
                    if ia.lo > ib.hi {
                        return FALSE;
                    }
                }
                // normalise against constants: x <= c  -> x < c+1 ; c < x -> c+1 <= x
                if op == Op::Ule && b.k && b.v < full {
                    return bin(Op::Ult, a, k(aw, b.v + 1));
                }
                if op == Op::Ult && a.k && a.v < full {
                    return bin(Op::Ule, k(aw, a.v + 1), b);
                }
                if op == Op::Ult && b.is(1) {
                    return bin(Op::Eq, a, k(aw, 0));
                }
                if op == Op::Ule && a.is(1) {
                    return not1(bin(Op::Eq, b, k(aw, 0)));
                }
                if op == Op::Ult && b.k && !a.k {
                    let n = node(a);
                    match n.op {
                        Op::ZExt => {
                            return bin(Op::Ult, n.a, k(n.a.w, b.v));
                        }
                        Op::Ite if n.b.k || n.c.k => {
                            return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                        }
                        Op::LShr if n.b.k && n.b.v < 64 => {
                            // x>>s < c  <=> x < c<<s
                            let s = n.b.v;
                            if b.v <= (full >> s) {
                                return bin(Op::Ult, n.a, k(aw, b.v << s));
                            }
                        }
                        Op::Add if n.b.k => {
                            // x + c < d without wrap
                            if let Some(h) = info(n.a).hi.checked_add(n.b.v) {
                                if h <= full && b.v >= n.b.v {
                                    return bin(Op::Ult, n.a, k(aw, b.v - n.b.v));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if op == Op::Ule && a.k && !b.k {
                    let n = node(b);
                    match n.op {
                        Op::ZExt => return bin(Op::Ule, k(n.a.w, a.v), n.a),
                        Op::Ite if n.b.k || n.c.k => {
                            return ite(n.a, bin(op, a, n.b), bin(op, a, n.c));
                        }
                        Op::LShr if n.b.k && n.b.v < 64 => {
                            let s = n.b.v;
                            if a.v <= (full >> s) {
                                return bin(Op::Ule, k(aw, a.v << s), n.a);
                            }
                        }
                        Op::Add if n.b.k => {
                            if let Some(h) = info(n.a).hi.checked_add(n.b.v) {
                                if h <= full && a.v >= n.b.v {
                                    return bin(Op::Ule, k(aw, a.v - n.b.v), n.a);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if !a.k && !b.k {
                    let (na, nb) = (node(a), node(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && na.a.w == nb.a.w {
                        return bin(op, na.a, nb.a);
                    }
                    // x + c1 < x + c2 style: same base no wrap
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && na.b.k {
                        let f = |x: Bv| info(x).hi.checked_add(na.b.v).map_or(false, |h| h <= full);
                        if f(na.a) && f(nb.a) {
                            return bin(op, na.a, nb.a);
                        }
                    }
                    // a < a + c (c > 0) : no overflow
                    if nb.op == Op::Add && nb.a == a && nb.b.k && nb.b.v > 0 {
                        if info(a).hi.checked_add(nb.b.v).map_or(false, |h| h <= full) {
                            return TRUE;
                        }
                    }
                    if na.op == Op::Add && na.a == b && na.b.k && na.b.v > 0 {
                        if info(b).hi.checked_add(na.b.v).map_or(false, |h| h <= full) {
                            return FALSE;
                        }
                    }
                    // a + x < a : unsigned overflow test
                    if na.op == Op::Add && (na.a == b || na.b == b) {
                        if info(na.a).hi.checked_add(info(na.b).hi).map_or(false, |h| h <= full) && op == Op::Ult {
                            return FALSE;
                        }
                    }
                }
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return kb(op == Op::Sle);
            }
            if aw <= 64 {
                let sb = 1u64 << (aw - 1);
                let (ia, ib) = (info(a), info(b));
                if ia.hi < sb && ib.hi < sb {
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if ia.lo >= sb && ib.lo >= sb {
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if ia.hi < sb && ib.lo >= sb {
                    return FALSE;
                }
                if ia.lo >= sb && ib.hi < sb {
                    return TRUE;
                }
            }
            if b.k && !a.k {
                let n = node(a);
                if n.op == Op::Ite && (n.b.k || n.c.k) {
                    return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
                }
            }
            if a.k && !b.k {
                let n = node(b);
                if n.op == Op::Ite && (n.b.k || n.c.k) {
                    return ite(n.a, bin(op, a, n.b), bin(op, a, n.c));
                }
            }
        }
        Op::Pdep => {
            if a.is(0) || b.is(0) {
                return k(aw, 0);
            }
        }
        _ => {}
    }
    mk(op, w, a, b, Z)
}

pub fn ite(c: Bv, a: Bv, b: Bv) -> Bv {
    debug_assert!(a.w == b.w && c.w == 1, "ite {:?} {:?} {:?}", c, a, b);
    if c.k {
        return if c.v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let n = node(c);
    if n.op == Op::Xor && n.b.is(1) {
        return ite(n.a, b, a);
    }
    if a.w == 1 {
        if a.k && b.k {
            return if a.v == 1 { c } else { not1(c) };
        }
        if a.is(1) || a == c {
            return bin(Op::Or, c, b);
        }
        if b.is(0) || b == c {
            return bin(Op::And, c, a);
        }
        if a.is(0) {
            return bin(Op::And, not1(c), b);
        }
        if b.is(1) {
            return bin(Op::Or, not1(c), a);
        }
    }
    let (mut a, mut b) = (a, b);
    if !a.k {
        let na = node(a);
        if na.op == Op::Ite && na.a == c {
            a = na.b;
        }
    }
    if !b.k {
        let nb = node(b);
        if nb.op == Op::Ite && nb.a == c {
            b = nb.c;
        }
    }
    if a == b {
        return a;
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if !b.k {
        let nb = node(b);
        if nb.op == Op::Ite && nb.b == a {
            return ite(bin(Op::Or, c, nb.a), a, nb.c);
        }
    }
    mk(Op::Ite, a.w, c, a, b)
}
pub fn zext(a: Bv, w: u16) -> Bv {
    if a.w == w {
        return a;
    }
    debug_assert!(a.w < w);
    if let Some(v) = a.cv() {
        return kw(w, v);
    }
    let n = node(a);
    if n.op == Op::ZExt {
        return zext(n.a, w);
    }
    if n.op == Op::Ite && n.b.k && n.c.k {
        return ite(n.a, zext(n.b, w), zext(n.c, w));
    }
    if n.op == Op::Extract && n.b.v == 0 && n.a.w <= 64 && a.w > 1 && info(n.a).hi <= mask(a.w) {
        // nothing was cut off
        return if n.a.w == w {
            n.a
        } else if n.a.w < w {
            zext(n.a, w)
        } else {
            extract(n.a, 0, w)
        };
    }
    if n.op == Op::Add && w <= 64 && n.b.k {
        // no carry is lost: add in the wider type
        let m = node(n.a);
        let hi = info(n.a).hi.saturating_add(n.b.v);
        if m.op == Op::Extract && m.b.v == 0 && m.a.w <= 64 && info(m.a).hi <= mask(n.a.w) && hi <= mask(a.w) {
            return bin(Op::Add, zext(n.a, w), k(w, n.b.v));
        }
    }
    mk(Op::ZExt, w, a, Z, Z)
}
pub fn sext(a: Bv, w: u16) -> Bv {
    if a.w == w {
        return a;
    }
    if let Some(v) = a.cv() {
        return kw(w, fold(Op::SExt, w, v, a.w, 0, 0));
    }
    if a.w <= 64 && info(a).hi < (1u64 << (a.w - 1)) {
        return zext(a, w);
    }
    let n = node(a);
    if n.op == Op::Ite && n.b.k && n.c.k {
        return ite(n.a, sext(n.b, w), sext(n.c, w));
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    mk(Op::SExt, w, a, Z, Z)
}
pub fn extract(a: Bv, lo: u16, w: u16) -> Bv {
    debug_assert!(lo + w <= a.w);
    if lo == 0 && w == a.w {
        return a;
    }
    if let Some(v) = a.cv() {
        return kw(w, v >> lo);
    }
    let n = node(a);
    match n.op {
        Op::ZExt => {
            if lo >= n.a.w {
                return kw(w, 0);
            }
            if lo + w <= n.a.w {
                return extract(n.a, lo, w);
            }
            return zext(extract(n.a, lo, n.a.w - lo), w);
        }
        Op::SExt if lo + w <= n.a.w => return extract(n.a, lo, w),
        Op::Extract => return extract(n.a, lo + n.b.v as u16, w),
        Op::Concat => {
            let lw = n.b.w;
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            return concat(extract(n.a, 0, lo + w - lw), extract(n.b, lo, lw - lo));
        }
        Op::Ite if n.b.cv().is_some() && n.c.cv().is_some() || (w == 1 && !(n.b.cv().is_none() && n.c.cv().is_none())) => {
            return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w))
        }
        Op::And | Op::Or | Op::Xor if n.b.k => return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Or if a.w <= 64 && info(n.a).ones & info(n.b).ones == 0 => {
            return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w))
        }
        Op::Add | Op::Sub | Op::Mul
            if lo == 0 && w >= 8 && (n.a.k || n.b.k) && (a.w > 64 || info(a).hi > mask(w)) =>
        {
            return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w));
        }
        Op::LShr if n.b.k && lo as u64 + n.b.v + w as u64 <= a.w as u64 => {
            return extract(n.a, lo + n.b.v as u16, w);
        }
        Op::Shl if n.b.k => {
            let s = n.b.v as u16;
            if lo >= s {
                return extract(n.a, lo - s, w);
            }
            if lo + w <= s {
                return kw(w, 0);
            }
        }
        _ => {}
    }
    if w <= 64 && a.w <= 64 {
        // high part known to be zero
        if info(a).hi >> lo == 0 {
            return k(w, 0);
        }
    }
    mk(Op::Extract, w, a, k(16, lo as u64), Z)
}
pub fn concat(hi: Bv, lo: Bv) -> Bv {
    let w = hi.w + lo.w;
    if let (Some(x), Some(y)) = (hi.cv(), lo.cv()) {
        return kw(w, (x << lo.w) | y);
    }
    if hi.is(0) {
        return zext(lo, w);
    }
    if !hi.k && !lo.k {
        let (nh, nl) = (node(hi), node(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b.v == nl.b.v + lo.w as u64 {
            return extract(nh.a, nl.b.v as u16, w);
        }
        if nh.op == Op::Extract && nh.a == lo && nh.b.v == lo.w as u64 {
            return extract(lo, 0, w);
        }
        if nh.op == Op::ZExt && false {
            return zext(concat(nh.a, lo), w);
        }
    }
    mk(Op::Concat, w, hi, lo, Z)
}
pub fn un(op: Op, w: u16, a: Bv) -> Bv {
    if let Some(x) = a.cv() {
        return kw(w, fold(op, w, x, a.w, 0, 0));
    }
    if op == Op::Cttz && a.w <= 64 && info(a).lo > 0 {
        let n = node(a);
        if n.op == Op::Shl && n.b.k && info(n.a).hi <= mask(a.w) >> n.b.v {
            return bin(Op::Add, un(op, w, n.a), k(w, n.b.v));
        }
        if n.op == Op::ZExt && w <= 64 && n.a.w >= 8 {
            let r = un(op, n.a.w, n.a);
            return if r.w <= w { zext(r, w) } else { extract(r, 0, w) };
        }
        let i = info(a);
        if i.must & i.ones & i.ones.wrapping_neg() != 0 {
            return k(w, i.ones.trailing_zeros() as u64);
        }
    }
    if op == Op::Popcnt && a.w <= 64 {
        let r = popc(a, mask(a.w));
        return if w == 64 {
            r
        } else if w < 64 {
            extract(r, 0, w)
        } else {
            zext(r, w)
        };
    }
    mk(op, w, a, Z, Z)
}
/// popcount(x & c) as a 64-bit value in canonical form
fn popc(x: Bv, c: u64) -> Bv {
    if x.k {
        return k(64, (x.v & c).count_ones() as u64);
    }
    let c = c & info(x).ones;
    if c == 0 {
        return k(64, 0);
    }
    let n = node(x);
    let cnt = |v: u64| k(64, v.count_ones() as u64);
    match n.op {
        Op::And if n.b.k => return popc(n.a, c & n.b.v),
        Op::Or if n.b.k => return bin(Op::Add, popc(n.a, c & !n.b.v), cnt(c & n.b.v)),
        Op::Xor if n.b.k => {
            let (keep, flip) = (popc(n.a, c & !n.b.v), popc(n.a, c & n.b.v));
            return bin(Op::Add, keep, bin(Op::Sub, cnt(c & n.b.v), flip));
        }
        Op::Or | Op::Xor if info(n.a).ones & info(n.b).ones & c == 0 => {
            return bin(Op::Add, popc(n.a, c), popc(n.b, c));
        }
        Op::Shl if n.b.k && n.b.v < 64 => return popc(n.a, c >> n.b.v),
        Op::LShr if n.b.k && n.b.v < 64 => return popc(n.a, (c << n.b.v) & mask(n.a.w)),
        Op::ZExt => return popc(n.a, c & mask(n.a.w)),
        Op::Concat if n.b.w < 64 => {
            return bin(Op::Add, popc(n.a, c >> n.b.w), popc(n.b, c & mask(n.b.w)));
        }
        Op::Extract if n.a.w <= 64 => return popc(n.a, c << n.b.v),
        Op::Ite if n.b.k && n.c.k => return ite(n.a, popc(n.b, c), popc(n.c, c)),
        _ => {}
    }
    if c.count_ones() == 1 {
        return zext(extract(x, c.trailing_zeros() as u16, 1), 64);
    }
    let y = if c == mask(x.w) || c == info(x).ones { x } else { bin(Op::And, x, k(x.w, c)) };
    if y.k {
        return cnt(y.v);
    }
    mk(Op::Popcnt, 64, y, Z, Z)
}
/// Sum of terms: canonical form of additions and subtractions over width w <= 64. Population
/// counts and single bits of the same word are merged bit by bit.
#[derive(Default)]
struct Lin {
    c: u64,
    t: Vec<(Bv, u64)>,
    bits: Vec<(Bv, Box<[u64; 64]>)>,
    n: usize,
}
impl Lin {
    fn bits_of(&mut self, x: Bv) -> &mut [u64; 64] {
        let i = match self.bits.iter().position(|(b, _)| *b == x) {
            Some(i) => i,
            None => {
                self.bits.push((x, Box::new([0; 64])));
                self.bits.len() - 1
            }
        };
        &mut self.bits[i].1
    }
    fn add(&mut self, e: Bv, f: u64) -> bool {
        self.n += 1;
        if self.n > 200 {
            return false;
        }
        if e.k {
            self.c = self.c.wrapping_add(e.v.wrapping_mul(f));
            return true;
        }
        let n = node(e);
        match n.op {
            Op::Add => return self.add(n.a, f) && self.add(n.b, f),
            Op::Sub => return self.add(n.a, f) && self.add(n.b, f.wrapping_neg()),
            Op::Xor if n.b.is(1) && n.w > 1 && info(n.a).hi <= 1 => {
                self.c = self.c.wrapping_add(f);
                return self.add(n.a, f.wrapping_neg());
            }
            Op::Popcnt => {
                let m = node(n.a);
                let (x, c) = if m.op == Op::And && m.b.k { (m.a, m.b.v) } else { (n.a, info(n.a).ones & mask(n.a.w)) };
                let b = self.bits_of(x);
                for i in 0..64 {
                    if c >> i & 1 == 1 {
                        b[i] = b[i].wrapping_add(f);
                    }
                }
                return true;
            }
            Op::ZExt if n.a.w == 1 => {
                let m = node(n.a);
                if m.op == Op::Extract && m.a.w <= 64 {
                    let b = self.bits_of(m.a);
                    let i = m.b.v as usize;
                    b[i] = b[i].wrapping_add(f);
                    return true;
                }
            }
            _ => {}
        }
        match self.t.iter_mut().find(|(b, _)| *b == e) {
            Some(x) => x.1 = x.1.wrapping_add(f),
            None => self.t.push((e, f)),
        }
        true
    }
    fn build(mut self, w: u16) -> Bv {
        let m = mask(w);
        let bits = std::mem::take(&mut self.bits);
        for (x, co) in bits {
            let mut seen: Vec<(u64, u64)> = vec![];
            for i in 0..64 {
                if co[i] & m != 0 {
                    match seen.iter_mut().find(|(v, _)| *v == co[i]) {
                        Some(s) => s.1 |= 1 << i,
                        None => seen.push((co[i], 1 << i)),
                    }
                }
            }
            for (v, c) in seen {
                let p = popc(x, c);
                self.t.push((if w < 64 { extract(p, 0, w) } else { p }, v));
            }
        }
        self.t.sort_by_key(|(b, _)| b.v);
        // exact integer range of the sum; if it lies in the width's range it is the value's range
        let (mut lo, mut hi) = (0i128, 0i128);
        let mut cc = self.c;
        let sg = |v: u64| {
            let v = v & m;
            if v > m >> 1 {
                v as i128 - m as i128 - 1
            } else {
                v as i128
            }
        };
        for (e, f) in &self.t {
            if e.k {
                cc = cc.wrapping_add(e.v.wrapping_mul(*f));
                continue;
            }
            let (i, f) = (info(*e), sg(*f));
            let (x, y) = (f.saturating_mul(i.lo as i128), f.saturating_mul(i.hi as i128));
            lo = lo.saturating_add(x.min(y));
            hi = hi.saturating_add(x.max(y));
        }
        lo = lo.saturating_add(sg(cc));
        hi = hi.saturating_add(sg(cc));
        let r = self.chain(w);
        if !r.k && lo >= 0 && hi <= m as i128 {
            let i = &mut ctx().info[r.v as usize];
            i.lo = i.lo.max(lo as u64);
            i.hi = i.hi.min(hi as u64);
            if i.lo == i.hi {
                return k(w, i.lo);
            }
        }
        r
    }
    fn chain(mut self, w: u16) -> Bv {
        let m = mask(w);
        let (mut pos, mut neg): (Option<Bv>, Option<Bv>) = (None, None);
        let sum = |a: Option<Bv>, b: Bv| {
            Some(match a {
                None => b,
                Some(a) => mk(Op::Add, w, if a.k { b } else { a }, if a.k { a } else { b }, Z),
            })
        };
        for (e, f) in self.t {
            let f = f & m;
            if f == 0 {
                continue;
            }
            if e.k {
                self.c = self.c.wrapping_add(e.v.wrapping_mul(f));
                continue;
            }
            let minus = f.wrapping_neg() & m;
            if f <= minus {
                pos = sum(pos, if f == 1 { e } else { bin(Op::Mul, e, k(w, f)) });
            } else {
                neg = sum(neg, if minus == 1 { e } else { bin(Op::Mul, e, k(w, minus)) });
            }
        }
        let c = self.c & m;
        let addk = |e: Bv, c: u64| {
            if e.k {
                k(w, e.v.wrapping_add(c))
            } else if c == 0 {
                e
            } else {
                mk(Op::Add, w, e, k(w, c), Z)
            }
        };
        match (pos, neg) {
            (None, None) => k(w, c),
            (Some(p), None) => addk(p, c),
            (None, Some(n)) => {
                if n.k {
                    k(w, c.wrapping_sub(n.v))
                } else {
                    mk(Op::Sub, w, k(w, c), n, Z)
                }
            }
            (Some(p), Some(n)) => {
                let d = if n.k {
                    addk(p, n.v.wrapping_neg() & m)
                } else if p == n {
                    k(w, 0)
                } else {
                    mk(Op::Sub, w, p, n, Z)
                };
                addk(d, c)
            }
        }
    }
}
fn lin(op: Op, a: Bv, b: Bv) -> Option<Bv> {
    let interesting = |x: Bv| !x.k && matches!(node(x).op, Op::Add | Op::Sub | Op::Popcnt | Op::ZExt)
        || (!x.k && node(x).op == Op::Xor && node(x).b.is(1) && info(x).hi <= 1);
    let sum = |x: Bv| !x.k && matches!(node(x).op, Op::Add | Op::Sub);
    if !(interesting(a) && interesting(b) || (a.k && sum(b)) || (b.k && sum(a))) {
        return None;
    }
    let mut l = Lin::default();
    let f = if op == Op::Sub { u64::MAX } else { 1 };
    if l.add(a, 1) && l.add(b, f) {
        Some(l.build(a.w))
    } else {
        None
    }
}
/// integer range of a - b for sums known to stay below 2^62
fn diff_range(a: Bv, b: Bv) -> Option<(i128, i128)> {
    let interesting = |x: Bv| x.k || matches!(node(x).op, Op::Add | Op::Sub | Op::Popcnt);
    if a.w != 64 || (a.k && b.k) || !(interesting(a) && interesting(b)) {
        return None;
    }
    let lim = 1u64 << 62;
    let hi = |x: Bv| if x.k { x.v } else { info(x).hi };
    if hi(a) >= lim || hi(b) >= lim {
        return None;
    }
    let mut l = Lin::default();
    if !(l.add(a, 1) && l.add(b, u64::MAX)) {
        return None;
    }
    let (mut lo, mut hi) = (l.c as i64 as i128, l.c as i64 as i128);
    for (x, co) in &l.bits {
        let inf = info(*x);
        for i in 0..64 {
            let f = co[i] as i64 as i128;
            if inf.ones >> i & 1 == 0 {
                continue;
            }
            if inf.must >> i & 1 == 1 {
                lo += f;
                hi += f;
            } else {
                lo += f.min(0);
                hi += f.max(0);
            }
        }
    }
    for (e, f) in &l.t {
        let (i, f) = (info(*e), *f as i64 as i128);
        let (x, y) = (f.checked_mul(i.lo as i128)?, f.checked_mul(i.hi as i128)?);
        lo = lo.checked_add(x.min(y))?;
        hi = hi.checked_add(x.max(y))?;
    }
    let b = 1i128 << 62;
    if lo > -b && hi < b {
        Some((lo, hi))
    } else {
        None
    }
}
pub fn fbin(op: Op, a: Bv, b: Bv) -> Bv {
    if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
        return kw(a.w, fold(op, a.w, x, a.w, y, 0));
    }
    mk(op, a.w, a, b, Z)
}

/// An assignment to variables together with a memo table for evaluation.
pub struct Model {
    pub vals: Vec<u128>,
    cache: RefCell<FxMap<u32, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model {
        Model { vals, cache: RefCell::new(FxMap::default()) }
    }
    pub fn eval(&self, b: Bv) -> u128 {
        if b.k {
            return b.v as u128;
        }
        let id = b.v as u32;
        if let Some(&v) = self.cache.borrow().get(&id) {
            return v;
        }
        let n = node(b);
        let r = match n.op {
            Op::Var => *self.vals.get(n.a.v as usize).unwrap_or(&0) & mask128(n.w),
            Op::BigC => b.cv().unwrap(),
            Op::Ite => {
                if self.eval(n.a) != 0 {
                    self.eval(n.b)
                } else {
                    self.eval(n.c)
                }
            }
            Op::Concat => (self.eval(n.a) << n.b.w) | self.eval(n.b),
            _ => {
                let a = self.eval(n.a);
                let bb = self.eval(n.b);
                fold(n.op, n.w, a, n.a.w, bb, 0)
            }
        };
        self.cache.borrow_mut().insert(id, r);
        r
    }
}

/// `b` with the known bits (mask, value) of variables put in
pub fn subst(b: Bv, facts: &FxMap<u32, (u64, u64)>, fv: &crate::solver::Vs, memo: &mut FxMap<u32, Bv>) -> Bv {
    if b.k || !crate::solver::varset(b).meets(fv) {
        return b;
    }
    let id = b.v as u32;
    if let Some(&r) = memo.get(&id) {
        return r;
    }
    let n = node(b);
    let mut s = |x: Bv| subst(x, facts, fv, memo);
    let r = match n.op {
        Op::Var => match facts.get(&id) {
            Some(&(m, v)) if m == mask(b.w) => k(b.w, v),
            Some(&(m, v)) => {
                let y = bin(Op::And, b, k(b.w, !m));
                if v == 0 {
                    y
                } else {
                    bin(Op::Or, y, k(b.w, v))
                }
            }
            None => b,
        },
        Op::BigC => b,
        Op::Ite => {
            let c = s(n.a);
            if c.is(1) {
                s(n.b)
            } else if c.is(0) {
                s(n.c)
            } else {
                let (x, y) = (s(n.b), s(n.c));
                ite(c, x, y)
            }
        }
        Op::ZExt => zext(s(n.a), n.w),
        Op::SExt => sext(s(n.a), n.w),
        Op::Extract => extract(s(n.a), n.b.v as u16, n.w),
        Op::Concat => {
            let (x, y) = (s(n.a), s(n.b));
            concat(x, y)
        }
        Op::Popcnt | Op::Ctlz | Op::Cttz => un(n.op, n.w, s(n.a)),
        Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl
        | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
            let (x, y) = (s(n.a), s(n.b));
            if x == n.a && y == n.b {
                b
            } else {
                bin(n.op, x, y)
            }
        }
        _ => b,
    };
    memo.insert(id, r);
    r
}

#[cfg(test)]
mod fp_tests {
    use super::*;
    #[test]
    fn int_to_float() {
        let mut x = 0x9e3779b97f4a7c15u64;
        for i in 0..200000u64 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            let v = match i % 4 {
                0 => x >> (x % 64),
                1 => (x | 1) << (i % 60),
                2 => (1u64 << (i % 64)).wrapping_add(i % 5).wrapping_sub(2),
                _ => !(x >> (x % 63)),
            };
            assert_eq!(fp_expand(Op::UiToFp, 64, k(64, v)).v, (v as f64).to_bits());
            assert_eq!(fp_expand(Op::SiToFp, 64, k(64, v)).v, (v as i64 as f64).to_bits());
            assert_eq!(fp_expand(Op::UiToFp, 32, k(64, v)).v, (v as f32).to_bits() as u64);
            assert_eq!(fp_expand(Op::SiToFp, 32, k(64, v)).v, (v as i64 as f32).to_bits() as u64);
        }
    }
}
