//! RsVec: rank, select, access, equality, select iterators.
use crate::sym::*;
use vers_vecs::{BitVec, RsVec};

pub const ALL: &[(&str, fn())] = &[
    ("h_rs_rank", h_rs_rank),
    ("h_rs_rank_all", h_rs_rank_all),
    ("h_rs_big_rank", h_rs_big_rank),
    ("h_rs_select", h_rs_select),
    ("h_rs_select_blocks", h_rs_select_blocks),
    ("h_rs_big_select", h_rs_big_select),
    ("h_rs_access", h_rs_access),
    ("h_rs_get_bits", h_rs_get_bits),
    ("h_rs_eq", h_rs_eq),
    ("h_rs_eq_big", h_rs_eq_big),
    ("h_rs_eq_mid", h_rs_eq_mid),
    ("h_rs_walk", h_rs_walk),
    ("h_rs_iter", h_rs_iter),
    ("h_rs_iter_all", h_rs_iter_all),
    ("h_rs_big_iter", h_rs_big_iter),
];

/// background bit patterns for large vectors
#[inline(never)]
pub fn bg(kind: u64, i: u64) -> u64 {
    match kind {
        0 => 0,
        1 => u64::MAX,
        2 => 0x5555_5555_5555_5555,
        // sparse: one bit in every 16th word / its complement
        3 => ((i % 16 == 5) as u64) << (i % 64),
        4 => !(((i % 16 == 5) as u64) << (i % 64)),
        // alternating full and empty super-blocks
        5 => {
            if (i / 128) % 2 == 0 {
                u64::MAX
            } else {
                0
            }
        }
        // four bits per word: a select block spans 16 super-blocks / its complement
        6 => 0x0001_0000_0001_0003 << (i % 7),
        7 => !(0x0001_0000_0001_0003 << (i % 7)),
        // two dense super-blocks, 18 nearly empty ones, then dense again / its complement
        8 | 10 => {
            let x = if i / 128 < 2 || i / 128 >= 20 {
                u64::MAX
            } else {
                (i % 128 == 77) as u64
            };
            if kind == 8 {
                x
            } else {
                !x
            }
        }
        _ => {
            let mut x = i.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x ^= x >> 27;
            x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        }
    }
}
/// `words` limbs of background with some free bits, cut to `len` bits; `pre[i]`: ones before limb i
pub struct Big {
    pub data: Vec<u64>,
    pub len: u64,
    pub pre: Vec<u64>,
}
impl Big {
    #[inline(always)]
    pub fn bit(&self, i: u64) -> u64 {
        (self.data[((i / 64) as usize).min(self.data.len() - 1)] >> (i % 64)) & 1
    }
    #[inline(always)]
    pub fn bv(&self) -> BitVec {
        let mut bv = BitVec::from_limbs(&self.data);
        bv.drop_last(64 * self.data.len() - self.len as usize);
        bv
    }
    #[inline(always)]
    pub fn build(&self) -> RsVec {
        RsVec::from_bit_vec(self.bv())
    }
    /// ones before concrete position p <= len
    #[inline(always)]
    pub fn ones(&self, p: u64) -> u64 {
        let w = (p / 64) as usize;
        if p % 64 == 0 {
            return self.pre[w];
        }
        self.pre[w].wrapping_add((self.data[w] & low(p % 64)).count_ones() as u64)
    }
    #[inline(always)]
    pub fn of(&self, zero: bool, p: u64) -> u64 {
        let o = self.ones(p);
        if zero {
            p.wrapping_sub(o)
        } else {
            o
        }
    }
    #[inline(always)]
    pub fn new(data: Vec<u64>, len: u64) -> Big {
        let mut pre = Vec::with_capacity(data.len() + 1);
        let mut s = 0u64;
        pre.push(0);
        for &x in &data {
            s = s.wrapping_add(x.count_ones() as u64);
            pre.push(s);
        }
        Big { data, len, pre }
    }
    /// the position claimed for the bit of rank k: exact or, if there is none, len
    #[inline(always)]
    pub fn is_select(&self, zero: bool, k: u64, s: u64) {
        check(s <= self.len, 50);
        let s = concretize(s);
        if s < self.len {
            check((self.bit(s) == !zero as u64) & (self.of(zero, s) == k), 51);
            cover(1);
        } else {
            check(k >= self.of(zero, self.len), 52);
            cover(2);
        }
    }
}
/// background with free bits `free` in the limbs `at` and `at + 1`
#[inline(never)]
pub fn big(words: u64, kind: u64, at: u64, free: u64, cut: u64) -> Big {
    let mut data = Vec::with_capacity(words as usize);
    for i in 0..words {
        data.push(bg(kind, i));
    }
    if at < words {
        data[at as usize] ^= any() & free;
    }
    if at + 1 < words {
        data[at as usize + 1] ^= any() & free;
    }
    Big::new(data, 64 * words - cut)
}
/// arbitrary content, concrete length
#[inline(never)]
pub fn free(words: u64, len: u64) -> Big {
    let mut data = Vec::with_capacity(words as usize);
    for _ in 0..words {
        data.push(any());
    }
    Big::new(data, len)
}
const CUTS: [u64; 8] = [0, 1, 2, 31, 32, 62, 63, 64];

/// every length and position of a vector of at most 3 limbs, content and junk arbitrary
#[no_mangle]
pub fn h_rs_rank() {
    let len = choose(0, 192);
    let v = free(3, len);
    let rs = v.build();
    check(rs.len() as u64 == len, 10);
    check(rs.is_empty() == (len == 0), 11);
    for p in 0..=len + 1 {
        let q = p.min(len);
        check(rs.rank1(p as usize) as u64 == v.ones(q), 1);
        check(rs.rank0(p as usize) as u64 == q - v.ones(q), 2);
    }
    let q = any();
    assume(q >= len);
    check(rs.rank1(q as usize) as u64 == v.ones(len), 4);
    check(rs.rank0(q as usize) as u64 == len - v.ones(len), 5);
    cover(1);
}
/// param0 limbs of arbitrary content: all positions around limb, block and super-block borders
#[no_mangle]
pub fn h_rs_rank_all() {
    let words = param(0);
    let cut = CUTS[choose(0, 7) as usize];
    let v = free(words, 64 * words - cut);
    let rs = v.build();
    let mut w = 0;
    while w <= words {
        for d in [0i64, 1, -1, 33] {
            let p = (64 * w as i64 + d).max(0) as u64;
            let q = p.min(v.len);
            check(rs.rank1(p as usize) as u64 == v.ones(q), 1);
            check(rs.rank0(p as usize) as u64 == q.wrapping_sub(v.ones(q)), 2);
        }
        w += 1;
    }
    cover(1);
}
/// many super-blocks of background with a few free bits at a chosen place (params: words, kind, places)
#[no_mangle]
pub fn h_rs_big_rank() {
    let (words, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, places - 1);
    let at = (words - 1) * c / places;
    let at = at - at.min(c % 3);
    let v = big(words, kind, at, 0x8000_0100_0000_0001, [0, 17, 63][(c % 3) as usize]);
    let rs = v.build();
    let mut w = 0;
    while w <= words {
        for d in [0i64, -1, 7] {
            let p = (64 * w as i64 + d).max(0) as u64;
            let q = p.min(v.len);
            check(rs.rank1(p as usize) as u64 == v.ones(q), 1);
            check(rs.rank0(p as usize) as u64 == q.wrapping_sub(v.ones(q)), 2);
        }
        w += if words > 4000 { if w / 128 == at / 128 || w + 2 >= words { 1 } else { (words - 1 - w).min(43) } } else if w % 8 == 7 || w % 8 == 0 || w / 128 == at / 128 { 1 } else { 2 };
    }
    cover(1);
}
const FREE: [u64; 4] = [0xf, 0xf << 60, 0x8010_0400_0000_4001, 0x0000_007c_0000_0000];
/// two limbs with a few free bits each on a background, junk behind the end, every rank
#[no_mangle]
pub fn h_rs_select() {
    let c = choose(0, 4 * 3 * 2 * 3 - 1);
    let zero = c & 1 == 0;
    let b = [0, 1, 9][(c / 2 % 3) as usize];
    let f = (c / 6 % 4) as usize;
    let len = [128, 127, 65, 64, 63, 1, 0, 100, 33][(c / 24 * 3 + choose(0, 2)) as usize];
    let v = Big::new(vec![bg(b, 0) ^ (any() & FREE[f]), bg(b, 1) ^ (any() & FREE[(f + param(0) as usize) % 4])], len);
    let rs = v.build();
    let k = choose(0, len);
    fork(true);
    let s = if zero { rs.select0(k as usize) } else { rs.select1(k as usize) } as u64;
    fork(false);
    v.is_select(zero, k, s);
    if k == 0 {
        // any rank at or beyond the number of bits
        let q = any();
        assume(q >= v.of(zero, len));
        fork(true);
    let s = if zero { rs.select0(q as usize) } else { rs.select1(q as usize) } as u64;
    fork(false);
        check(s == len, 2);
    }
}
/// one super-block (param0 limbs) on a background (param1), free bits in two limbs next to a block border,
/// ranks around the border
#[no_mangle]
pub fn h_rs_select_blocks() {
    let (words, kind) = (param(0), param(1));
    let c = choose(0, words / 4 * 2 - 1);
    let zero = c & 1 == 0;
    let at = (c / 2 * 4 + 3).min(words - 1);
    let v = big(words, kind, at, if kind < 2 { 0x8000_0000_0000_0001 } else { 0x4000_0001_0000_0001 }, [0, 1, 40][(at % 3) as usize]);
    let rs = v.build();
    // the number of matching background bits before the border
    let mut base = 0;
    for i in 0..at + 1 {
        let x = bg(kind, i);
        base += if zero { x.count_zeros() } else { x.count_ones() } as u64;
    }
    let k = (base + choose(0, 8)).saturating_sub(5);
    fork(true);
    let s = if zero { rs.select0(k as usize) } else { rs.select1(k as usize) } as u64;
    fork(false);
    v.is_select(zero, k, s);
}
/// the same over many super-blocks and select blocks (params: words, kind, places)
#[no_mangle]
pub fn h_rs_big_select() {
    let (words, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, 2 * places - 1);
    let zero = c & 1 == 0;
    let at = (words - 1) * (c / 2) / places;
    // near a super-block border in two of three cases
    let at = if c % 3 == 0 { at } else { (at / 128 * 128).saturating_sub(c % 2) };
    let v = big(words, kind, at, 0x8000_0000_0000_0001, [0, 1, 63][(at % 3) as usize]);
    let rs = v.build();
    let mut cnt = vec![0u64];
    let mut total = 0u64;
    for i in 0..words {
        total += if zero { bg(kind, i).count_zeros() } else { bg(kind, i).count_ones() } as u64;
        if i % 128 == 127 || i == at || i == at + 1 {
            cnt.push(total);
        }
    }
    let mut j = 8192;
    while j < total {
        cnt.push(j);
        j += 8192;
    }
    cnt.push(total);
    let k = (cnt[choose(0, cnt.len() as u64 - 1) as usize] + choose(0, 4)).saturating_sub(3);
    fork(true);
    let s = if zero { rs.select0(k as usize) } else { rs.select1(k as usize) } as u64;
    fork(false);
    v.is_select(zero, k, s);
}
/// the bits and the way back to a BitVec, arbitrary content of param0 limbs
#[no_mangle]
pub fn h_rs_access() {
    let words = param(0);
    let cut = choose(0, 64);
    let v = free(words, 64 * words - cut);
    let rs = if choose(0, 1) == 0 { v.build() } else { RsVec::from(v.bv()) };
    check(rs.len() as u64 == v.len, 1);
    for w in 0..words {
        let have = v.len.saturating_sub(64 * w).min(64);
        if have > 0 {
            check(opt_is(rs.get_bits(64 * w as usize, have as usize), true, v.data[w as usize] & low(have)), 2);
            check(opt_is(rs.get(64 * w as usize + have as usize - 1), true, v.bit(64 * w + have - 1)), 3);
            check(rs.get_unchecked(64 * w as usize) == v.bit(64 * w), 4);
        }
    }
    check(rs.get(v.len as usize).is_none(), 5);
    let b: BitVec = if choose(0, 1) == 0 { rs.into_bit_vec() } else { rs.into() };
    check(b.len() as u64 == v.len, 6);
    for w in 0..words {
        let have = v.len.saturating_sub(64 * w).min(64);
        if have > 0 {
            check(opt_is(b.get_bits(64 * w as usize, have as usize), true, v.data[w as usize] & low(have)), 7);
        }
    }
    cover(1);
}
/// get and get_bits with arbitrary arguments
#[no_mangle]
pub fn h_rs_get_bits() {
    let len = [0, 1, 63, 64, 65, 127, 128][choose(0, 6) as usize];
    let v = free(2, len);
    let rs = v.build();
    let (p, n) = (any(), any());
    let l = [v.data[0], v.data[1]];
    check(opt_is(rs.get(p as usize), p < len, crate::bitvec::bit(&l, p)), 1);
    let ok = (n <= 64) & (p <= len) & (n <= len.wrapping_sub(p));
    match rs.get_bits(p as usize, n as usize) {
        None => check(!ok | (n == 0), 2),
        Some(x) => {
            check(ok, 3);
            let j = any_in(0, 63);
            check((x >> j) & 1 == sel(j < n, crate::bitvec::bit(&l, p.wrapping_add(j)), 0), 4);
        }
    }
    cover(1);
}
/// equality of vectors that agree up to a few free bits; every comparison function
#[no_mangle]
pub fn h_rs_eq() {
    let (words, kind) = (param(0), param(1));
    let c = choose(0, 3);
    let cut = [0, 1, 30, 63][choose(0, 3) as usize];
    let at = choose(0, words - 1);
    let a = big(words, kind, at, 0x8000_0000_0000_0003, cut);
    let b = big(words, kind, if c == 2 { words - 1 } else { at }, 0xc000_0000_0000_0001, if c == 3 { (cut + 1) % 64 } else { cut });
    let mut same = a.len == b.len;
    for i in 0..words {
        let have = a.len.saturating_sub(64 * i).min(64);
        same &= (a.data[i as usize] ^ b.data[i as usize]) & low(have) == 0;
    }
    let (x, y) = (a.build(), b.build());
    match choose(0, 3) {
        0 => check(x.full_equals(&y) == same, 1),
        1 => check(x.sparse_equals::<false>(&y) == same, 2),
        2 => check(x.sparse_equals::<true>(&y) == same, 3),
        _ => check((x == y) == same, 4),
    }
    cover(1);
}
/// == on more than four million bits (params: words, kind)
#[no_mangle]
pub fn h_rs_eq_big() {
    let (words, kind) = (param(0), param(1));
    let mut a = Vec::with_capacity(words as usize);
    for i in 0..words {
        a.push(if i == 3 || i == words - 2 { 0x10 ^ bg(kind, i) } else { bg(kind, i) });
    }
    let mut b = a.clone();
    let c = choose(0, 3);
    let cut = [1, 0, 1, 0][c as usize];
    let at = [words - 1, words - 1, 5, words / 2][c as usize];
    a[at as usize] ^= any() & 0x8000_0000_0000_0010;
    b[at as usize] ^= any() & 0x8000_0000_0000_0010;
    let have = if at == words - 1 { 64 - cut } else { 64 };
    let same = (a[at as usize] ^ b[at as usize]) & low(have) == 0;
    let (mut x, mut y) = (BitVec::from_vec(a), BitVec::from_vec(b));
    x.drop_last(cut as usize);
    y.drop_last(cut as usize);
    let (x, y) = (RsVec::from_bit_vec(x), RsVec::from_bit_vec(y));
    check((x == y) == same, 1);
    cover(1);
}

/// histories of calls on a select iterator; every result is compared with the definition
#[inline(always)]
fn drive<I: DoubleEndedIterator<Item = usize> + ExactSizeIterator>(v: &Big, mut it: I, zero: bool, steps: u64, jumps: &[u64]) {
    let mut lo = 0;
    let mut hi = concretize(v.of(zero, v.len));
    let n = jumps.len() as u64;
    check(it.len() as u64 == hi, 1);
    for _ in 0..steps {
        let op = choose(0, 2 * n + 1);
        let (back, a) = if op < 2 {
            (op == 1, 0)
        } else {
            (op & 1 == 1, jumps[(op / 2 - 1) as usize])
        };
        let a = if a == u64::MAX - 1 { (hi - lo).saturating_sub(1) } else { a };
        fork(true);
        let r = match (op < 2, back) {
            (true, false) => it.next(),
            (true, true) => it.next_back(),
            (false, false) => it.nth(a as usize),
            (false, true) => it.nth_back(a as usize),
        };
        fork(false);
        let left = hi - lo;
        match r {
            None => {
                check(a >= left, 2);
                if back {
                    hi = lo;
                } else {
                    lo = hi;
                }
            }
            Some(s) => {
                check(a < left, 3);
                let k = if back { hi - 1 - a } else { lo + a };
                check((s as u64) < v.len, 4);
                let s = concretize(s as u64);
                check((v.bit(s) == !zero as u64) & (v.of(zero, s) == k), 5);
                if back {
                    hi = k;
                } else {
                    lo = k + 1;
                }
                cover(1);
            }
        }
        check(it.len() as u64 == hi - lo, 6);
        let (l, u) = it.size_hint();
        check((l as u64 == hi - lo) & uopt_is(u, true, hi - lo), 7);
    }
    match choose(0, 2) {
        0 => check(it.count() as u64 == hi - lo, 8),
        1 => match it.last() {
            None => check(lo == hi, 9),
            Some(s) => {
                check(lo < hi, 10);
                v.is_select(zero, hi - 1, s as u64);
            }
        },
        _ => {
            check(it.nth(usize::MAX).is_none(), 11);
            check(it.next().is_none(), 12);
            check(it.next_back().is_none(), 13);
            check(it.nth_back(0).is_none(), 14);
            check(it.len() == 0, 15);
        }
    }
}
#[inline(always)]
fn drive4(v: &Big, c: u64, steps: u64, jumps: &[u64]) {
    let rs = v.build();
    match c % 4 {
        0 => drive(v, rs.iter0(), true, steps, jumps),
        1 => drive(v, rs.iter1(), false, steps, jumps),
        2 => drive(v, rs.into_iter0(), true, steps, jumps),
        _ => drive(v, rs.into_iter1(), false, steps, jumps),
    }
}
/// all histories of param0 calls on vectors of 0..=4 bits, arbitrary content
#[no_mangle]
pub fn h_rs_iter() {
    let c = choose(0, 19);
    let v = Big::new(vec![any_bits(4) ^ !0xf], c / 4);
    drive4(&v, c, param(0), &[0, 1, 2, u64::MAX]);
}
/// full enumeration from both ends of an arbitrary short vector or a long one (params: words, kind)
#[no_mangle]
pub fn h_rs_iter_all() {
    let (words, kind) = (param(0), param(1));
    let c = choose(0, 3);
    let at = choose(0, words - 1);
    let v = big(words, kind, at, 0x8000_0000_0000_0001, [0, 1, 63][(at % 3) as usize]);
    let rs = v.build();
    let zero = c & 1 == 0;
    let mut pos = Vec::with_capacity(64);
    if c < 2 {
        if zero {
            for x in rs.iter0() {
                pos.push(x as u64);
            }
        } else {
            for x in rs.iter1() {
                pos.push(x as u64);
            }
        }
    } else {
        if zero {
            for x in rs.iter0().rev() {
                pos.push(x as u64);
            }
        } else {
            for x in rs.iter1().rev() {
                pos.push(x as u64);
            }
        }
        pos.reverse();
    }
    check(pos.len() as u64 == v.of(zero, v.len), 1);
    // strictly increasing and all of the right kind, with the right count: exactly the positions
    let mut last = 0;
    let mut ok = true;
    for (i, &p) in pos.iter().enumerate() {
        let p = concretize(p);
        ok &= (i == 0 || p > last) && p < v.len;
        last = p;
        ok &= v.bit(p.min(v.len - 1)) == !zero as u64;
    }
    check(ok, 2);
    cover(1);
}
/// histories of param3 calls over many super-blocks (params: words, kind, places, steps)
#[no_mangle]
pub fn h_rs_big_iter() {
    let (words, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, 4 * places - 1);
    let at = (words - 1) * (c / 4) / places;
    let at = if c % 3 == 0 { at } else { (at / 128 * 128).saturating_sub(c % 2) };
    let v = big(words, kind, at, 0x8000_0000_0000_0001, [0, 1, 63][(at % 3) as usize]);
    let h = [1, 63, 511, 700, 4096, 8190, 8191, 8193, 17000, u64::MAX - 1];
    drive4(&v, c, param(3), &h);
}
/// params: words, background, places: pairs of larger vectors that differ at most in some free bits of two neighbouring
/// words, all comparison functions
#[no_mangle]
pub fn h_rs_eq_mid() {
    let (words, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, places * 4 - 1);
    let at = (words - 2) * (c / 4) / (places - 1).max(1);
    let cut = [0, 1, 63][((c / 4) % 3) as usize];
    fork(true);
    let a = big(words, kind, at, 0x0000_0100_0000_0001, cut);
    let b = big(words, kind, at, 0x0000_0100_0000_0002, cut);
    let mut same = true;
    for i in at..at + 2 {
        let have = a.len.saturating_sub(64 * i).min(64);
        same &= (a.data[i as usize] ^ b.data[i as usize]) & low(have) == 0;
    }
    let (x, y) = (a.build(), b.build());
    match c % 4 {
        0 => check(x.full_equals(&y) == same, 1),
        1 => check(x.sparse_equals::<false>(&y) == same, 2),
        2 => check(x.sparse_equals::<true>(&y) == same, 3),
        _ => check((x == y) == same, 4),
    }
    cover(1);
}
/// params: words, background, places: a select iterator consumed completely from both ends in steps of several
/// patterns, with free bits in two neighbouring words
#[no_mangle]
pub fn h_rs_walk() {
    let (words, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, places * 8 - 1);
    let at = (words - 2) * (c / 8) / (places - 1).max(1);
    fork(true);
    let mut v = big(words, kind, at, 0x8000_0000_0000_0001, [0, 1, 63][((c / 8) % 3) as usize]);
    for i in at..at + 2 {
        v.data[i as usize] = concretize(v.data[i as usize]);
    }
    let zero = c & 1 == 1;
    let pos: Vec<usize> = (0..v.len).filter(|i| (v.data[(*i / 64) as usize] >> (*i % 64)) & 1 == !zero as u64).map(|i| i as usize).collect();
    let n = pos.len() as u64;
    let rs = v.build();
    let e = |i: u64, x: &usize| *x == pos[i as usize];
    let back = (c / 4) & 1 == 1;
    match (c / 2) % 2 {
        0 if zero => crate::iters::walk_by(rs.iter0(), n, back, |k| if k % 3 == 0 { k * 7 % 300 } else { k % 2 }, e),
        0 => crate::iters::walk_by(rs.iter1(), n, back, |k| if k % 3 == 0 { k * 7 % 300 } else { k % 2 }, e),
        _ if zero => crate::iters::walk_by(rs.into_iter0(), n, back, |k| if k % 40 == 7 { 1100 } else { 0 }, e),
        _ => crate::iters::walk_by(rs.into_iter1(), n, back, |k| if k % 40 == 7 { 1100 } else { 0 }, e),
    }
    cover(1);
}
