//! BitVec: sequence semantics, packing, counting, equality, masks.
use crate::sym::*;
use std::hash::{Hash, Hasher};
use vers_vecs::BitVec;

pub const ALL: &[(&str, fn())] = &[
    ("h_bv_step", h_bv_step),
    ("h_bv_history", h_bv_history),
    ("h_bv_construct", h_bv_construct),
    ("h_bv_construct_long", h_bv_construct_long),
    ("h_bv_after", h_bv_after),
    ("h_bv_hist_all", h_bv_hist_all),
    ("h_bv_eq_hist", h_bv_eq_hist),
    ("h_bv_read", h_bv_read),
    ("h_bv_split", h_bv_split),
    ("h_bv_extend", h_bv_extend),
    ("h_bv_long", h_bv_long),
    ("h_bv_long_op", h_bv_long_op),
    ("h_bv_pack_long", h_bv_pack_long),
    ("h_bv_unpack", h_bv_unpack),
    ("h_bv_pack", h_bv_pack),
    ("h_bv_eq", h_bv_eq),
    ("h_bv_eq_long", h_bv_eq_long),
    ("h_mask", h_mask),
    ("h_mask_counts", h_mask_counts),
    ("h_mask_long", h_mask_long),
];

/// set by the harnesses that choose lengths and positions from a list instead of leaving them free
static mut LISTED: bool = false;
/// a number in lo..=hi: free, or one of a list
#[inline(always)]
fn pick(lo: u64, hi: u64) -> u64 {
    if unsafe { LISTED } {
        let c = [0, 1, 17, 62, 63, 64, 65, 100, 127, 128];
        let mut ok = [0; 12];
        let mut n = 0;
        for x in c {
            if x >= lo && x < hi {
                ok[n] = x;
                n += 1;
            }
        }
        ok[n] = hi;
        ok[choose(0, n as u64) as usize]
    } else {
        any_in(lo, hi)
    }
}
/// a position in a vector of `len` elements, or anything at all
#[inline(always)]
fn place(len: u64, inside: bool) -> u64 {
    if unsafe { LISTED } {
        if inside {
            assume(len > 0);
            pick(0, len - 1)
        } else {
            let p = pick(0, len);
            if p == len { p + choose(0, 1) * 64 } else { p }
        }
    } else {
        let p = any();
        if inside {
            assume(p < len);
        }
        p
    }
}
/// An arbitrary bit vector of at most 64*n bits with arbitrary junk behind its end, built through
/// the public interface; returns it with its limbs and its length.
#[inline(always)]
pub fn sym_bv<const N: usize>() -> (BitVec, [u64; N], u64) {
    let mut l = [0u64; N];
    let mut i = 0;
    while i < N {
        l[i] = any();
        i += 1;
    }
    let drop = 64 * N as u64 - pick(0, 64 * N as u64);
    let mut bv = BitVec::from_limbs(&l);
    bv.drop_last(drop as usize);
    (bv, l, 64 * N as u64 - drop)
}
#[inline(always)]
pub fn bit<const N: usize>(l: &[u64; N], i: u64) -> u64 {
    (l[((i / 64) as usize).min(N - 1)] >> (i % 64)) & 1
}

/// One mutating operation on the modelled sequence. `words_after` computes the words of
/// the sequence after the operation from those before it.
#[derive(Clone, Copy)]
enum Op {
    Tail(u64, u64), // everything from position p on is taken from word x
    Set(u64, u64),
    Flip(u64),
    Nop,
}
#[inline(always)]
fn bit_after(op: Op, before: u64, i: u64) -> u64 {
    match op {
        Op::Tail(p, x) => sel(i >= p, (x >> (i.wrapping_sub(p) & 63)) & 1, before),
        Op::Set(p, v) => sel(i == p, v & 1, before),
        Op::Flip(p) => before ^ (i == p) as u64,
        Op::Nop => before,
    }
}
const NOPS: u64 = 12;
/// apply operation number `which` with symbolic arguments, return the model of it
#[inline(never)]
fn apply(bv: &mut BitVec, which: u64, len: &mut u64) -> Op {
    let l = *len;
    match which {
        0 => {
            let (x, n) = (any(), pick(0, 64));
            bv.append_bits(x, n as usize);
            *len = l + n;
            Op::Tail(l, x)
        }
        1 => {
            let x = any();
            bv.append_word(x);
            *len = l + 64;
            Op::Tail(l, x)
        }
        2 => {
            let x = any_bits(1);
            bv.append(x == 1);
            *len = l + 1;
            Op::Tail(l, x)
        }
        3 => {
            let x = any();
            bv.append_bit(x);
            *len = l + 1;
            Op::Tail(l, x)
        }
        4 => {
            let n = place(l, false);
            bv.drop_last(n as usize);
            *len = sel(n <= l, l.wrapping_sub(n), 0);
            Op::Nop
        }
        5 => {
            let (p, v) = (place(l, false), any());
            let r = bv.set(p as usize, v).is_ok();
            check(r == (p < l), 100);
            Op::Set(sel(p < l, p, u64::MAX), v)
        }
        6 => {
            let p = place(l, true);
            bv.flip_bit(p as usize);
            Op::Flip(p)
        }
        7 => {
            let x = any_bits(32);
            bv.append_bit_u32(x as u32);
            *len = l + 1;
            Op::Tail(l, x)
        }
        8 => {
            let x = any_bits(16);
            bv.append_bit_u16(x as u16);
            *len = l + 1;
            Op::Tail(l, x)
        }
        9 => {
            let x = any_bits(8);
            bv.append_bit_u8(x as u8);
            *len = l + 1;
            Op::Tail(l, x)
        }
        11 => {
            let p = place(l, true);
            bv.flip_bit_unchecked(p as usize);
            Op::Flip(p)
        }
        _ => {
            let (p, v) = (place(l, true), any_bits(1));
            bv.set_unchecked(p as usize, v);
            Op::Set(p, v)
        }
    }
}
/// compare get with the modelled sequence at symbolic positions
#[inline(never)]
fn observe_bit<const N: usize>(bv: &BitVec, base: &[u64; N], ops: &[Op], len: u64) {
    check(bv.len() as u64 == len, 1);
    check(bv.is_empty() == (len == 0), 2);
    let i = any();
    let mut b = bit(base, i);
    for &o in ops {
        b = bit_after(o, b, i);
    }
    check(opt_is(bv.get(i as usize), i < len, b), 3);
    cover(1);
}

/// the words of the modelled sequence after an operation
#[inline(always)]
fn words_after(op: Op, w: [u64; 4]) -> [u64; 4] {
    let mut r = w;
    for j in 0..4u64 {
        let x = w[j as usize];
        r[j as usize] = match op {
            Op::Tail(p, t) => {
                let (q, s) = (p / 64, p % 64);
                let lo = t << s;
                let hi = (t >> 1) >> (63 - s);
                let keep = sel(j < q, u64::MAX, sel(j == q, low(s), 0));
                (x & keep) | sel(j == q, lo, sel(j == q + 1, hi, 0))
            }
            Op::Set(p, v) => {
                let m = sel(p / 64 == j, 1 << (p % 64), 0);
                (x & !m) | sel(v & 1 == 1, m, 0)
            }
            Op::Flip(p) => x ^ sel(p / 64 == j, 1 << (p % 64), 0),
            Op::Nop => x,
        };
    }
    r
}
#[inline(always)]
fn clip(len: u64, j: u64) -> u64 {
    let have = sel(len >= 64 * j, len.wrapping_sub(64 * j), 0);
    sel(have > 64, 64, have)
}
/// compare one observer (mode) with the modelled sequence at symbolic positions
#[inline(never)]
fn observe(bv: &mut BitVec, w: &[u64; 4], len: u64, mode: u64) {
    check(bv.len() as u64 == len, 1);
    check(bv.is_empty() == (len == 0), 2);
    match mode {
        0 => {
            let i = place(len, false);
            check(opt_is(bv.get(i as usize), i < len, bit(w, i)), 3);
        }
        1 => {
            let (p, n) = (place(len, false), pick(1, 64));
            let ok = (p <= len) & (n <= len.wrapping_sub(p));
            match bv.get_bits(p as usize, n as usize) {
                None => check(!ok, 4),
                Some(v) => {
                    check(ok, 5);
                    check(v == bv.get_bits_unchecked(p as usize, n as usize), 6);
                    let e = w[(p / 64) as usize] >> (p % 64) | (w[(p as usize / 64 + 1).min(3)] << 1) << (63 - p % 64);
                    check(v == e & low(n), 7);
                }
            }
        }
        2 => {
            let i = place(len, false);
            check(opt_is(bv.is_bit_set(i as usize).map(u64::from), i < len, bit(w, i)), 8);
            assume(i < len);
            check(bv.get_unchecked(i as usize) == bit(w, i), 9);
            check(bv.is_bit_set_unchecked(i as usize) as u64 == bit(w, i), 10);
        }
        3 => {
            let mut ones = 0;
            for j in 0..4u64 {
                ones += (w[j as usize] & low(clip(len, j))).count_ones() as u64;
            }
            check(bv.count_ones() == ones, 11);
            check(bv.count_zeros() == len - ones, 12);
        }
        4 => {
            // what comes next lands right behind the end
            let y = any();
            bv.append_word(y);
            check(bv.len() as u64 == len + 64, 13);
            let i = place(len + 64, false);
            let e = sel(i < len, bit(w, i), (y >> (i.wrapping_sub(len) & 63)) & 1);
            check(opt_is(bv.get(i as usize), i < len + 64, e), 14);
        }
        _ => {
            let mut j = 0;
            for l in bv.iter_limbs() {
                check((64 * j < len) & ((l ^ w[(j as usize).min(3)]) & low(clip(len, j)) == 0), 15);
                j += 1;
            }
            check(64 * j >= len, 16);
        }
    }
    cover(1);
}
const MODES: u64 = 6;
#[inline(always)]
fn pad<const N: usize>(l: &[u64; N]) -> [u64; 4] {
    let mut w = [0; 4];
    w[..N].copy_from_slice(l);
    w
}

/// One operation from an arbitrary state (arbitrary content, length and junk): covers histories of
/// any length, because every public operation leads to a state of this form.
#[no_mangle]
pub fn h_bv_step() {
    let which = choose(0, NOPS - 1);
    let (mut bv, l, mut len) = sym_bv::<2>();
    let op = apply(&mut bv, which, &mut len);
    observe_bit(&bv, &l, &[op], len);
}
/// Histories of two operations.
#[no_mangle]
pub fn h_bv_history() {
    let w1 = choose(0, NOPS * NOPS - 1);
    let (mut bv, l, mut len) = sym_bv::<1>();
    let o1 = apply(&mut bv, w1 % NOPS, &mut len);
    let o2 = apply(&mut bv, w1 / NOPS, &mut len);
    observe_bit(&bv, &l, &[o1, o2], len);
}
/// a vector from each of the larger constructions, with its words and length
#[inline(never)]
fn source(which: u64) -> (BitVec, [u64; 4], u64) {
    match which {
        0 => {
            let k = pick(0, 130);
            (BitVec::from_zeros(k as usize), [0; 4], k)
        }
        1 => {
            let k = pick(0, 130);
            (BitVec::from_ones(k as usize), [u64::MAX; 4], k)
        }
        2 | 3 => {
            let (bv, l, len) = sym_bv::<2>();
            let at = pick(0, len);
            let (a, b) = if choose(0, 1) == 0 {
                match bv.split_at(at as usize) {
                    Ok(p) => p,
                    Err(_) => {
                        check(false, 30);
                        return (BitVec::new(), [0; 4], 0);
                    }
                }
            } else {
                bv.split_at_unchecked(at as usize)
            };
            if which == 2 {
                (a, pad(&l), at)
            } else {
                let l = [l[0], l[1], 0, 0, 0];
                let (q, t) = ((at / 64) as usize, at % 64);
                let f = |i: usize| l[i] >> t | (l[i + 1] << 1) << (63 - t);
                (b, [f(q), f(q + 1), 0, 0], len - at)
            }
        }
        4 => {
            let la = [0u64, 1, 63, 64, 65, 100][choose(0, 5) as usize];
            let (x, y) = (any(), any());
            let mut a = BitVec::from_limbs(&[x, y]);
            a.drop_last(128 - la as usize);
            let (b, m, lb) = sym_bv::<1>();
            match choose(0, 2) {
                0 => a.extend_bitvec(&b),
                1 => a.extend([b]),
                _ => a.extend([&b]),
            }
            let w = words_after(Op::Tail(la, m[0]), [x, y, 0, 0]);
            (a, w, la + lb)
        }
        5 => {
            let e = [any(), any(), any()];
            let wd = [1u64, 5, 21, 32, 43, 64][choose(0, 5) as usize];
            let bv = BitVec::pack_sequence_u64(&e, wd as usize);
            let mut w = [0; 4];
            for i in 0..3 {
                w = words_after(Op::Tail(wd * i, e[i as usize] & low(wd)), w);
            }
            (bv, w, 3 * wd)
        }
        6 | 7 => {
            let (mut a, l, len) = sym_bv::<2>();
            let m = [any(), any()];
            let mut b = BitVec::from_limbs(&m);
            b.drop_last(128 - len as usize);
            let w = [l[0] ^ m[0], l[1] ^ m[1], 0, 0];
            if which == 6 {
                check(a.apply_mask_xor(&b).is_ok(), 31);
                (a, w, len)
            } else {
                match a.mask_xor(&b) {
                    Ok(v) => (v.to_bit_vec(), w, len),
                    Err(_) => {
                        check(false, 32);
                        (BitVec::new(), [0; 4], 0)
                    }
                }
            }
        }
        8 => {
            let (x, n) = (any(), choose(0, 5));
            let bits: [u64; 5] = [x & 1, x >> 1 & 1, x >> 2 & 1, x >> 3 & 1, x >> 4 & 1];
            let bv = match choose(0, 3) {
                0 => BitVec::from_bits(&bits.map(|b| b as u8)[..n as usize]),
                1 => BitVec::from_bits_u16(&bits.map(|b| b as u16)[..n as usize]),
                2 => BitVec::from_bits_u64(&bits[..n as usize]),
                _ => BitVec::from_bool_iter(bits[..n as usize].iter().map(|b| *b == 1)),
            };
            (bv, [x, 0, 0, 0], n)
        }
        9 => {
            // the unchecked form is defined for clean ends and words without excess bits
            let (x, y, a, b) = (any(), any(), pick(0, 64), pick(0, 64));
            let mut bv = BitVec::with_capacity(7);
            bv.append_bits_unchecked(x & low(a), a as usize);
            bv.append_bits_unchecked(y & low(b), b as usize);
            (bv, words_after(Op::Tail(a, y), [x, 0, 0, 0]), a + b)
        }
        _ => {
            let l = [any(), any()];
            let n = choose(0, 2) as usize;
            let bv: BitVec = match choose(0, 2) {
                0 => BitVec::from(&l[..n]),
                1 => BitVec::from(l[..n].to_vec()),
                _ => l[..n].iter().copied().collect(),
            };
            (bv, pad(&l), 64 * n as u64)
        }
    }
}
const SOURCES: u64 = 11;
/// One or two (param 0) operations, then one observer, lengths and positions from a list.
#[no_mangle]
pub fn h_bv_hist_all() {
    unsafe { LISTED = true };
    let c = choose(0, NOPS * MODES - 1);
    let (mut bv, l, mut len) = sym_bv::<1>();
    let mut w = pad(&l);
    if param(0) == 2 {
        let op = apply(&mut bv, choose(0, NOPS - 1), &mut len);
        w = words_after(op, w);
    }
    let op = apply(&mut bv, c % NOPS, &mut len);
    w = words_after(op, w);
    observe(&mut bv, &w, len, c / NOPS);
}
/// Every construction, then one operation, then one observer (param 0: observer, 9 = all).
#[no_mangle]
pub fn h_bv_after() {
    unsafe { LISTED = true };
    let c = choose(0, SOURCES * (NOPS + 1) - 1);
    let mode = if param(0) < MODES { param(0) } else { choose(0, MODES - 1) };
    let (mut bv, mut w, mut len) = source(c / (NOPS + 1));
    if c % (NOPS + 1) < NOPS {
        let op = apply(&mut bv, c % (NOPS + 1), &mut len);
        w = words_after(op, w);
    }
    observe(&mut bv, &w, len, mode);
}
/// A vector reached through a construction and an operation equals (and hashes like) the one made
/// directly from its words with other junk behind the end.
#[no_mangle]
pub fn h_bv_eq_hist() {
    unsafe { LISTED = true };
    let c = choose(0, SOURCES * (NOPS + 1) - 1);
    let (mut bv, mut w, mut len) = source(c / (NOPS + 1));
    if c % (NOPS + 1) < NOPS {
        let op = apply(&mut bv, c % (NOPS + 1), &mut len);
        w = words_after(op, w);
    }
    assume(len <= 256);
    let j = any();
    let mut o = [0; 4];
    for i in 0..4 {
        let m = low(clip(len, i as u64));
        o[i] = (w[i] & m) | (j & !m);
    }
    let mut d = BitVec::from_limbs(&o);
    d.drop_last(256 - len as usize);
    check((bv == d) & (d == bv) & !(bv != d), 1);
    check(same_hash(&hash_of(&bv), &hash_of(&d)), 2);
    let i = place(len, true);
    d.flip_bit(i as usize);
    check((bv != d) & !(d == bv), 3);
    cover(1);
}
#[no_mangle]
pub fn h_bv_construct() {
    let which = choose(0, 9);
    let n = choose(0, 3) as usize;
    let w = [any(), any(), any()];
    let i = any();
    let (bv, len, b): (BitVec, u64, u64) = match which {
        0 => (BitVec::from_limbs(&w[..n]), 64 * n as u64, bit(&w, i)),
        1 => (BitVec::from_vec(w[..n].to_vec()), 64 * n as u64, bit(&w, i)),
        2 => (BitVec::from_limbs_iter(w[..n].iter().copied()), 64 * n as u64, bit(&w, i)),
        3 => (w[..n].iter().copied().collect(), 64 * n as u64, bit(&w, i)),
        4 => {
            let k = any_in(0, 193);
            (BitVec::from_zeros(k as usize), k, 0)
        }
        5 => {
            let k = any_in(0, 193);
            (BitVec::from_ones(k as usize), k, 1)
        }
        6 => {
            let v = [w[0] as u8, (w[0] >> 8) as u8, w[1] as u8];
            let e = [v[0] as u64 & 1, v[1] as u64 & 1, v[2] as u64 & 1];
            (BitVec::from_bits(&v[..n]), n as u64, e[(i as usize).min(2)])
        }
        7 => {
            let v = [w[0] as u32, (w[0] >> 32) as u32, w[1] as u32];
            let e = [v[0] as u64 & 1, v[1] as u64 & 1, v[2] as u64 & 1];
            (BitVec::from_bits_u32(&v[..n]), n as u64, e[(i as usize).min(2)])
        }
        8 => {
            let v = [w[0] & 1 == 1, w[1] & 1 == 1, w[2] & 1 == 1];
            let e = [w[0] & 1, w[1] & 1, w[2] & 1];
            (BitVec::from_bools(&v[..n]), n as u64, e[(i as usize).min(2)])
        }
        _ => {
            let e = [w[0] & 1, w[1] & 1, w[2] & 1];
            (BitVec::from_bits_iter(w[..n].iter().copied()), n as u64, e[(i as usize).min(2)])
        }
    };
    check(bv.len() as u64 == len, 1);
    check(opt_is(bv.get(i as usize), i < len, b), 2);
    cover(1);
}
/// get_bits / is_bit_set / count / limbs of an arbitrary vector
#[no_mangle]
pub fn h_bv_read() {
    let which = choose(0, 2);
    let (bv, l, len) = sym_bv::<3>();
    match which {
        0 => {
            let (p, n) = (any(), any());
            let ok = (n >= 1) & (n <= 64) & (p <= len) & (n <= len.wrapping_sub(p));
            let r = bv.get_bits(p as usize, n as usize);
            match r {
                None => check(!ok, 1),
                Some(v) => {
                    check(ok, 2);
                    let j = any_in(0, 63);
                    let e = sel(j < n, bit(&l, p.wrapping_add(j)), 0);
                    check((v >> j) & 1 == e, 3);
                }
            }
        }
        1 => {
            let p = any();
            match bv.is_bit_set(p as usize) {
                None => check(p >= len, 4),
                Some(b) => check((p < len) & (b as u64 == bit(&l, p)), 5),
            }
        }
        _ => {
            let mut ones = 0;
            for i in 0..3u64 {
                let have = sel(len >= 64 * i, len.wrapping_sub(64 * i), 0);
                let have = sel(have > 64, 64, have);
                ones += (l[i as usize] & low(have)).count_ones() as u64;
            }
            check(bv.count_ones() == ones, 6);
            check(bv.count_zeros() == len - ones, 7);
        }
    }
    cover(1);
}
/// packed elements: any index and width
#[no_mangle]
pub fn h_bv_unpack() {
    let (bv, l, len) = sym_bv::<3>();
    let (i, n) = (any(), any());
    let r = bv.unpack_element(i as usize, n as usize);
    let big = (i as u128) * (n as u128) + n as u128;
    assume(n > 0);
    let ok = (n <= 64) & (big <= len as u128);
    match r {
        None => check(!ok, 8),
        Some(v) => {
            check(ok, 9);
            let j = any_in(0, 63);
            let e = sel(j < n, bit(&l, (i.wrapping_mul(n)).wrapping_add(j)), 0);
            check((v >> j) & 1 == e, 10);
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_bv_split() {
    let (bv, l, len) = sym_bv::<3>();
    let at = any();
    match bv.split_at(at as usize) {
        Err(bv) => {
            check(at > len, 1);
            check(bv.len() as u64 == len, 2);
        }
        Ok((a, b)) => {
            check(at <= len, 3);
            check((a.len() as u64 == at) & (b.len() as u64 == len - at), 4);
            let i = any();
            check(opt_is(a.get(i as usize), i < at, bit(&l, i)), 5);
            check(opt_is(b.get(i as usize), i < len - at, bit(&l, at + (i & 0xffff))), 6);
            cover(1);
        }
    }
}
#[no_mangle]
pub fn h_bv_extend() {
    let (mut a, l, len) = sym_bv::<1>();
    let (b, m, blen) = sym_bv::<2>();
    a.extend_bitvec(&b);
    check(a.len() as u64 == len + blen, 1);
    let i = any();
    let e = sel(i < len, bit(&l, i), bit(&m, i.wrapping_sub(len)));
    check(opt_is(a.get(i as usize), i < len + blen, e), 2);
    cover(1);
}
/// Longer vectors: param0 limbs, concrete length near the end, built in three ways, then one operation.
/// Content is arbitrary.
#[no_mangle]
pub fn h_bv_long() {
    let how = choose(0, 5);
    let n = param(0) as usize;
    let cut = [0u64, 1, 31, 63, 64, 65, 130][choose(0, 6) as usize];
    let mut l = Vec::with_capacity(n);
    for i in 0..n {
        // the bitwise builders branch on every bit: only a few free bits there
        l.push(if how == 1 || how == 4 { crate::rsvec::bg(9, i as u64) ^ if i == 1 { any() & 0x8000_0000_0010_0001 } else { 0 } } else { any() });
    }
    let len = 64 * n as u64 - cut;
    let mut bv = match how {
        0 => BitVec::from_limbs(&l),
        1 => {
            let mut b = BitVec::new();
            for i in 0..64 * n as u64 {
                b.append_bit(l[(i / 64) as usize] >> (i % 64));
            }
            b
        }
        2 => {
            // in pieces of 61 bits
            let mut b = BitVec::with_capacity(10);
            let mut i = 0u64;
            while i < 64 * n as u64 {
                let m = (64 * n as u64 - i).min(61);
                let w = (i / 64) as usize;
                let lo = l[w] >> (i % 64);
                let hi = if i % 64 == 0 || w + 1 >= n { 0 } else { l[w + 1] << (64 - i % 64) };
                b.append_bits(lo | hi, m as usize);
                i += m;
            }
            b
        }
        3 => {
            let b = BitVec::from_limbs(&l);
            let at = (choose(0, 4) as usize * (16 * n)).saturating_sub(n * (cut as usize % 2) / 2);
            let at = at.min(64 * n);
            match b.split_at(at) {
                Ok((mut x, y)) => {
                    check(x.len() == at, 20);
                    x.extend_bitvec(&y);
                    x
                }
                Err(_) => {
                    check(false, 21);
                    return;
                }
            }
        }
        4 => {
            let mut b = BitVec::from_zeros(64 * n);
            for i in 0..64 * n {
                b.set(i, l[i / 64] >> (i % 64)).unwrap();
            }
            b
        }
        _ => {
            let mut b = BitVec::from_ones(64 * n);
            for i in 0..n {
                b.drop_last(64);
                let _ = i;
            }
            for i in 0..n {
                b.append_word(l[i]);
            }
            b
        }
    };
    bv.drop_last(cut as usize);
    check(bv.len() as u64 == len, 1);
    for i in 0..n as u64 {
        let have = len.saturating_sub(64 * i).min(64);
        if have > 0 {
            check(opt_is(bv.get_bits(64 * i as usize, have as usize), true, l[i as usize] & low(have)), 2);
        }
        if have == 64 && i > 0 {
            let p = 64 * i - 17;
            check(opt_is(bv.get_bits(p as usize, 64), true, l[i as usize - 1] >> 47 | l[i as usize] << 17), 3);
        }
        check(uopt_is(bv.get(64 * i as usize + 5).map(|x| x as usize), have > 5, (l[i as usize] >> 5) & 1), 4);
    }
    let mut ones = 0u64;
    for i in 0..n as u64 {
        ones += (l[i as usize] & low(len.saturating_sub(64 * i).min(64))).count_ones() as u64;
    }
    check(bv.count_ones() == ones, 5);
    check(bv.count_zeros() == len - ones, 6);
    cover(1);
}
/// every packing constructor, every width up to 130 bits, up to 5 arbitrary elements
#[no_mangle]
pub fn h_bv_pack() {
    let c = choose(0, 7);
    let n = [5, 0, 1, 2][choose(0, 3) as usize] as usize;
    // every width up to 130, then some that need several words of padding
    let wide = [137, 160, 191, 192, 193, 200, 255, 256, 257, 264, 300, 319, 320, 321, 400, 511, 512, 513, 600, 1000];
    let w = choose(0, 150);
    let w = if w <= 130 { w } else { wide[w as usize - 131] };
    let e = [any(), any(), any(), any(), any()];
    let max = [64, 32, 16, 8][(c / 2) as usize];
    let (e32, e16, e8) = (e.map(|x| x as u32), e.map(|x| x as u16), e.map(|x| x as u8));
    let bv = match c {
        0 => BitVec::pack_sequence_u64(&e[..n], w as usize),
        1 => BitVec::pack_from_iter_u64(e[..n].iter().copied(), w as usize),
        2 => BitVec::pack_sequence_u32(&e32[..n], w as usize),
        3 => BitVec::pack_from_iter_u32(e32[..n].iter().copied(), w as usize),
        4 => BitVec::pack_sequence_u16(&e16[..n], w as usize),
        5 => BitVec::pack_from_iter_u16(e16[..n].iter().copied(), w as usize),
        6 => BitVec::pack_sequence_u8(&e8[..n], w as usize),
        _ => BitVec::pack_from_iter_u8(e8[..n].iter().copied(), w as usize),
    };
    check(bv.len() as u64 == n as u64 * w, 1);
    for i in 0..n {
        let v = e[i] & low(w.min(max));
        if w >= 1 && w <= 64 {
            check(opt_is(bv.unpack_element(i, w as usize), true, v), 2);
            check(bv.unpack_element_unchecked(i, w as usize) == v, 3);
        } else if w > 64 {
            check(opt_is(bv.get_bits(i * w as usize, 64), true, v), 4);
            let mut j = 64;
            while j < w {
                let m = (w - j).min(64);
                check(opt_is(bv.get_bits(i * w as usize + j as usize, m as usize), true, 0), 5);
                j += m;
            }
        }
    }
    if w >= 1 {
        check(bv.unpack_element(n, w as usize).is_none(), 6);
    }
    cover(1);
}
/// param0 arbitrary elements (or one less), widths from a list
#[no_mangle]
pub fn h_bv_pack_long() {
    let c = choose(0, 7);
    let w = [1, 2, 3, 7, 8, 9, 13, 16, 17, 31, 32, 33, 48, 61, 63, 64, 70][choose(0, 16) as usize];
    let n = (param(0) - choose(0, 1)) as usize;
    let max = [64, 32, 16, 8][(c / 2) as usize];
    let mut e = Vec::with_capacity(n);
    let mut e32 = Vec::with_capacity(n);
    let mut e16 = Vec::with_capacity(n);
    let mut e8 = Vec::with_capacity(n);
    for _ in 0..n {
        let x = any();
        e.push(x);
        e32.push(x as u32);
        e16.push(x as u16);
        e8.push(x as u8);
    }
    let bv = match c {
        0 => BitVec::pack_sequence_u64(&e, w as usize),
        1 => BitVec::pack_from_iter_u64(e.iter().copied(), w as usize),
        2 => BitVec::pack_sequence_u32(&e32, w as usize),
        3 => BitVec::pack_from_iter_u32(e32.iter().copied(), w as usize),
        4 => BitVec::pack_sequence_u16(&e16, w as usize),
        5 => BitVec::pack_from_iter_u16(e16.iter().copied(), w as usize),
        6 => BitVec::pack_sequence_u8(&e8, w as usize),
        _ => BitVec::pack_from_iter_u8(e8.iter().copied(), w as usize),
    };
    check(bv.len() as u64 == n as u64 * w, 1);
    for i in 0..n {
        let v = e[i] & low(w.min(max));
        if w <= 64 {
            check(opt_is(bv.unpack_element(i, w as usize), true, v), 2);
        } else {
            check(opt_is(bv.get_bits(i * w as usize, 64), true, v), 3);
            check(opt_is(bv.get_bits(i * w as usize + 64, w as usize - 64), true, 0), 4);
        }
    }
    check(bv.unpack_element(n, w as usize).is_none(), 5);
    cover(1);
}
/// 64 bits from position p of a list of words (zero behind it)
#[inline(always)]
fn at(l: &[u64], p: u64) -> u64 {
    let w = (p / 64) as usize;
    let lo = if w < l.len() { l[w] >> (p % 64) } else { 0 };
    let hi = if p % 64 != 0 && w + 1 < l.len() { l[w + 1] << (64 - p % 64) } else { 0 };
    lo | hi
}
/// the vector has exactly these bits, read limb-wise and unaligned
fn is(b: &BitVec, l: &[u64], from: u64, len: u64, counts: bool) {
    check(b.len() as u64 == len, 1);
    let mut ones = 0u64;
    let mut i = 0;
    while i < len {
        let m = (len - i).min(64);
        let x = at(l, from + i) & low(m);
        check(opt_is(b.get_bits(i as usize, m as usize), true, x), 2);
        if from % 64 == 0 && counts && len <= 1300 {
            ones += x.count_ones() as u64;
        }
        i += m;
    }
    // (of shifted words the solver cannot compare the counts)
    if from % 64 == 0 && counts && len <= 1300 {
        check(b.count_ones() == ones, 3);
    }
    check(b.get(len as usize).is_none(), 4);
}
/// one operation on param0 arbitrary words with junk; lengths, positions and widths from lists
#[no_mangle]
pub fn h_bv_long_op() {
    let op = choose(0, 11);
    let n = param(0);
    let cut = [0, 1, 32, 63][choose(0, 3) as usize];
    let len = 64 * n - cut;
    let mut l = Vec::with_capacity(n as usize + 20);
    for _ in 0..n {
        l.push(any());
    }
    let mut b = BitVec::from_limbs(&l);
    b.drop_last(cut as usize);
    let ps = [0, 1, 63, 64, 65, 127, 200, 64 * (n / 2), 64 * (n / 2) + 17, len - 65, len - 64, len - 1, len];
    let p = ps[choose(0, 12) as usize];
    // the model behind the end is zero
    l[n as usize - 1] &= low(64 - cut);
    for _ in 0..20 {
        l.push(0);
    }
    // write 64 bits behind the end
    let put = |l: &mut Vec<u64>, q: u64, x: u64| {
        l[(q / 64) as usize] |= x << (q % 64);
        if q % 64 != 0 {
            l[(q / 64) as usize + 1] |= x >> (64 - q % 64);
        }
    };
    match op {
        0 => {
            b.drop_last(p as usize);
            is(&b, &l, 0, len - p, true);
        }
        1 => {
            b.drop_last((len - p) as usize);
            let x = any();
            for w in [5, 64, 1, 63] {
                let m = b.len() as u64;
                b.append_bits(x, w as usize);
                let keep = b.len() as u64 == m + w;
                check(keep, 5);
            }
            l.truncate((p / 64) as usize + 1);
            let k = l.len() - 1;
            l[k] &= low(p % 64);
            for _ in 0..4 {
                l.push(0);
            }
            put(&mut l, p, x & 31);
            put(&mut l, p + 5, x);
            put(&mut l, p + 69, x & 1);
            put(&mut l, p + 70, x & low(63));
            is(&b, &l, 0, p + 133, false);
        }
        2 => {
            b.drop_last((len - p) as usize);
            let x = any();
            b.append_word(x);
            b.append(x & 2 != 0);
            l.truncate((p / 64) as usize + 1);
            let k = l.len() - 1;
            l[k] &= low(p % 64);
            for _ in 0..4 {
                l.push(0);
            }
            put(&mut l, p, x);
            put(&mut l, p + 64, (x >> 1) & 1);
            is(&b, &l, 0, p + 65, false);
        }
        3 | 4 => {
            // extended by up to 17 words
            let m = if op == 3 { 17u64 } else { 3 };
            let mut o = Vec::with_capacity(17);
            for _ in 0..m {
                o.push(any());
            }
            let mut c = BitVec::from_limbs(&o);
            let olen = 64 * m - [0, 1, 63, 40][(p % 4) as usize];
            c.drop_last((64 * m - olen) as usize);
            o[m as usize - 1] &= low(64 - (64 * m - olen));
            b.extend_bitvec(&c);
            for i in 0..m {
                put(&mut l, len + 64 * i, o[i as usize]);
            }
            is(&b, &l, 0, len + olen, len % 64 == 0);
            is(&c, &o, 0, olen, true);
        }
        5 | 6 => {
            let r = if op == 5 { b.split_at(p as usize) } else { Ok(b.split_at_unchecked(p as usize)) };
            match r {
                Ok((x, y)) => {
                    is(&x, &l, 0, p, true);
                    is(&y, &l, p, len - p, true);
                }
                Err(_) => check(false, 6),
            }
        }
        7 => {
            let p = p.min(len - 1);
            b.flip_bit(p as usize);
            l[(p / 64) as usize] ^= 1 << (p % 64);
            is(&b, &l, 0, len, true);
        }
        8 => {
            let p = p.min(len - 1);
            let x = any_bits(1);
            check(b.set(p as usize, x).is_ok(), 7);
            l[(p / 64) as usize] = l[(p / 64) as usize] & !(1 << (p % 64)) | (x << (p % 64));
            is(&b, &l, 0, len, true);
        }
        9 => {
            // unaligned reads
            let m = [1, 7, 63, 64][choose(0, 3) as usize];
            let inside = p + m <= len;
            check(opt_is(b.get_bits(p as usize, m as usize), inside, at(&l, p) & low(m)), 8);
            check(opt_is(b.get(p as usize), p < len, at(&l, p) & 1), 9);
        }
        10 => {
            // limbs and bits by iterators
            let mut i = 0;
            for x in b.iter_limbs() {
                let have = len.saturating_sub(64 * i).min(64);
                check(i < n && (x ^ l[i as usize]) & low(have) == 0, 10);
                i += 1;
            }
            check(i == n, 11);
            let mut it = b.iter();
            if p > 0 {
                check(opt_is(it.nth(p as usize - 1), true, at(&l, p - 1) & 1), 12);
            }
            check(opt_is(it.next(), p < len, at(&l, p) & 1), 13);
        }
        _ => {
            let z = BitVec::from_zeros(p as usize);
            let o = BitVec::from_ones(p as usize);
            check(z.len() as u64 == p && o.len() as u64 == p && z.count_ones() == 0 && o.count_ones() == p, 14);
            check(z.count_zeros() == p && o.count_zeros() == 0, 15);
        }
    }
    cover(1);
}
pub struct Rec(pub [u64; 64], pub usize);
impl Rec {
    #[inline(always)]
    fn push(&mut self, x: u64) {
        if self.1 < 64 {
            self.0[self.1] = x;
        }
        self.1 += 1;
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.push(*x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.push(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.push(x as u64)
    }
}
#[inline(never)]
fn hash_of<T: Hash>(b: &T) -> Rec {
    let mut r = Rec([0; 64], 0);
    b.hash(&mut r);
    r
}
#[inline(always)]
fn same_hash(a: &Rec, b: &Rec) -> bool {
    let mut ok = a.1 == b.1;
    for i in 0..64 {
        ok &= a.0[i] == b.0[i];
    }
    ok
}
/// two arbitrary vectors of up to 128 bits with arbitrary junk
#[no_mangle]
pub fn h_bv_eq() {
    let (a, l, len) = sym_bv::<2>();
    let (b, m, blen) = sym_bv::<2>();
    let mut same = len == blen;
    for i in 0..2u64 {
        let have = sel(len >= 64 * i, len.wrapping_sub(64 * i), 0);
        let have = sel(have > 64, 64, have);
        same &= (l[i as usize] ^ m[i as usize]) & low(have) == 0;
    }
    check((a == b) == same, 1);
    check((b == a) == same, 2);
    check((a != b) == !same, 3);
    cover(1);
    let (x, y) = (hash_of(&a), hash_of(&b));
    check(!same | same_hash(&x, &y), 4);
}
/// vectors of param0 limbs that differ at most in two places, concrete length near the end
#[no_mangle]
pub fn h_bv_eq_long() {
    let n = param(0) as usize;
    let cut = [0u64, 1, 31, 63, 64, 127][choose(0, 5) as usize];
    let at = choose(0, n as u64 - 1) as usize;
    let mut l = Vec::with_capacity(n);
    for _ in 0..n {
        l.push(any());
    }
    let mut m = l.clone();
    let d = any();
    m[at] ^= d;
    let junk = any();
    m[n - 1] ^= junk;
    let len = 64 * n as u64 - cut;
    let (mut a, mut b) = (BitVec::from_limbs(&l), BitVec::from_vec(m));
    a.drop_last(cut as usize);
    b.drop_last(cut as usize);
    let have = len.saturating_sub(64 * at as u64).min(64);
    let last = len.saturating_sub(64 * (n as u64 - 1)).min(64);
    let same = if at == n - 1 {
        (d ^ junk) & low(have) == 0
    } else {
        (d & low(have) == 0) & (junk & low(last) == 0)
    };
    check((a == b) == same, 1);
    let (x, y) = (hash_of(&a), hash_of(&b));
    check(!same | same_hash(&x, &y), 2);
    cover(1);
}
fn odd(a: u64, b: u64) -> u64 {
    !(a & b)
}
#[inline(always)]
fn mop(op: u64, a: u64, b: u64) -> u64 {
    match op {
        0 => a | b,
        1 => a & b,
        2 => a ^ b,
        _ => !(a & b),
    }
}
macro_rules! mask_view {
    ($r:expr, $l:expr, $m:expr, $op:expr, $len:expr, $blen:expr) => {{
    let (l, m, op, len, blen) = ($l, $m, $op, $len, $blen);
    let v = match $r {
        Err(_) => {
            check(len != blen, 1);
            return;
        }
        Ok(v) => v,
    };
    check(len == blen, 2);
    let e = [mop(op, l[0], m[0]), mop(op, l[1], m[1])];
    let p = any();
    check(opt_is(v.get(p as usize), p < len, bit(&e, p)), 3);
    check(opt_is(v.is_bit_set(p as usize).map(|x| x as u64), p < len, bit(&e, p)), 4);
    let n = any();
    let ok = (n >= 1) & (n <= 64) & (p <= len) & (n <= len.wrapping_sub(p));
    match v.get_bits(p as usize, n as usize) {
        None => check(!ok, 5),
        Some(x) => {
            check(ok, 6);
            let j = any_in(0, 63);
            check((x >> j) & 1 == sel(j < n, bit(&e, p.wrapping_add(j)), 0), 7);
        }
    }
    let t = v.to_bit_vec();
    check(t.len() as u64 == len, 8);
    check(opt_is(t.get(p as usize), p < len, bit(&e, p)), 9);
    cover(1);
    }};
}
#[no_mangle]
pub fn h_mask() {
    let op = choose(0, 7);
    let (a, l, len) = sym_bv::<2>();
    let (b, m, blen) = sym_bv::<2>();
    match op {
        0 => mask_view!(a.mask_or(&b), &l, &m, op, len, blen),
        1 => mask_view!(a.mask_and(&b), &l, &m, op, len, blen),
        2 => mask_view!(a.mask_xor(&b), &l, &m, op, len, blen),
        3 => mask_view!(a.mask_custom(&b, odd), &l, &m, op, len, blen),
        _ => {
            let mut t = a.clone();
            let r = match op - 4 {
                0 => t.apply_mask_or(&b),
                1 => t.apply_mask_and(&b),
                2 => t.apply_mask_xor(&b),
                _ => t.apply_mask_custom(&b, odd),
            };
            let ok = r.is_ok();
            check(ok == (len == blen), 10);
            check(t.len() as u64 == len, 11);
            let e = if ok { [mop(op - 4, l[0], m[0]), mop(op - 4, l[1], m[1])] } else { l };
            let p = any();
            check(opt_is(t.get(p as usize), p < len, bit(&e, p)), 12);
            check(opt_is(b.get(p as usize), p < blen, bit(&m, p)), 13);
            cover(1);
        }
    }
}
/// counting and reading through masks, param0 limbs, all lengths of the last limb
#[no_mangle]
pub fn h_mask_counts() {
    let n = param(0) as usize;
    let op = choose(0, 3);
    let cut = choose(0, 66);
    let (mut l, mut m) = (Vec::with_capacity(n), Vec::with_capacity(n));
    for _ in 0..n {
        l.push(any());
        m.push(any());
    }
    let len = 64 * n as u64 - cut;
    let (mut a, mut b) = (BitVec::from_limbs(&l), BitVec::from_limbs(&m));
    a.drop_last(cut as usize);
    b.drop_last(cut as usize);
    let mut ones = 0u64;
    for i in 0..n as u64 {
        ones += (mop(op, l[i as usize], m[i as usize]) & low(len.saturating_sub(64 * i).min(64))).count_ones() as u64;
    }
    let (x, y) = match op {
        0 => {
            let v = a.mask_or(&b).unwrap();
            (v.count_ones(), v.count_zeros())
        }
        1 => {
            let v = a.mask_and(&b).unwrap();
            (v.count_ones(), v.count_zeros())
        }
        2 => {
            let v = a.mask_xor(&b).unwrap();
            (v.count_ones(), v.count_zeros())
        }
        _ => {
            let v = a.mask_custom(&b, |a, b| !(a & b)).unwrap();
            (v.count_ones(), v.count_zeros())
        }
    };
    check(x == ones, 1);
    check(y == len - ones, 2);
    cover(1);
}
/// all masks on param0 limbs: every limb of the result, aligned and unaligned
#[no_mangle]
pub fn h_mask_long() {
    let n = param(0) as usize;
    let op = choose(0, 7);
    let cut = [0u64, 1, 63, 64, 65][choose(0, 4) as usize];
    let (mut l, mut m) = (Vec::with_capacity(n), Vec::with_capacity(n));
    for _ in 0..n {
        l.push(any());
        m.push(any());
    }
    let len = 64 * n as u64 - cut;
    let (mut a, mut b) = (BitVec::from_limbs(&l), BitVec::from_limbs(&m));
    a.drop_last(cut as usize);
    b.drop_last(cut as usize);
    let t = match op {
        0 => a.mask_or(&b).unwrap().to_bit_vec(),
        1 => a.mask_and(&b).unwrap().to_bit_vec(),
        2 => a.mask_xor(&b).unwrap().to_bit_vec(),
        3 => a.mask_custom(&b, odd).unwrap().to_bit_vec(),
        4 => {
            a.apply_mask_or(&b).unwrap();
            a
        }
        5 => {
            a.apply_mask_and(&b).unwrap();
            a
        }
        6 => {
            a.apply_mask_xor(&b).unwrap();
            a
        }
        _ => {
            a.apply_mask_custom(&b, odd).unwrap();
            a
        }
    };
    check(t.len() as u64 == len, 1);
    for i in 0..n as u64 {
        let have = len.saturating_sub(64 * i).min(64);
        if have > 0 {
            check(opt_is(t.get_bits(64 * i as usize, have as usize), true, mop(op % 4, l[i as usize], m[i as usize]) & low(have)), 2);
        }
    }
    cover(1);
}
/// every constructor from up to param0 words (or 64 times as many elements), arbitrary content
#[no_mangle]
pub fn h_bv_construct_long() {
    let n = param(0) as usize;
    let which = choose(0, 14);
    if which < 2 {
        let k = [64 * n, 64 * n - 1, 64 * n - 63, 64 * n + 1, 64 * n - 32, 1000 * n + 7][choose(0, 5) as usize];
        let v = if which == 0 { BitVec::from_zeros(k) } else { BitVec::from_ones(k) };
        check(v.len() == k, 1);
        let ones = if which == 1 { k as u64 } else { 0 };
        check(v.count_ones() == ones && v.count_zeros() == k as u64 - ones, 2);
        let i = any();
        check(opt_is(v.get(i as usize), i < k as u64, which), 3);
    } else if which < 8 {
        let k = n - choose(0, 2) as usize;
        let w: Vec<u64> = (0..k).map(|_| any()).collect();
        let v: BitVec = match which {
            2 => BitVec::from_limbs(&w),
            3 => BitVec::from_vec(w.clone()),
            4 => BitVec::from_limbs_iter(w.iter().copied()),
            5 => w.iter().copied().collect(),
            6 => BitVec::from(&w[..]),
            _ => BitVec::from(w.clone()),
        };
        check(v.len() == 64 * k, 4);
        for i in 0..k {
            check(opt_is(v.get_bits(64 * i, 64), true, w[i]), 5);
        }
        check(v.get(64 * k).is_none(), 6);
    } else {
        let k = [0, 1, 2, 63, 64, 65, 64 * n, 64 * n - 1, 64 * n + 1][choose(0, 8) as usize];
        // some free elements (only the lowest bit of an element counts), a fixed pattern otherwise
        let w: Vec<u64> = (0..k).map(|i| if [0, 1, 62, 63, 64, k / 2, k - 1].contains(&i) { any() } else { crate::rsvec::bg(9, i as u64) }).collect();
        let v = match which {
            8 => BitVec::from_bits(&w.iter().map(|x| *x as u8).collect::<Vec<_>>()),
            9 => BitVec::from_bits_u16(&w.iter().map(|x| *x as u16).collect::<Vec<_>>()),
            10 => BitVec::from_bits_u32(&w.iter().map(|x| *x as u32).collect::<Vec<_>>()),
            11 => BitVec::from_bits_u64(&w),
            12 => BitVec::from_bools(&w.iter().map(|x| x & 1 == 1).collect::<Vec<_>>()),
            13 => BitVec::from_bool_iter(w.iter().map(|x| x & 1 == 1)),
            _ => BitVec::from_bits_iter(w.iter().copied()),
        };
        check(v.len() == k, 7);
        for i in 0..k {
            check(opt_is(v.get(i), true, w[i] & 1), 8);
        }
        check(v.get(k).is_none(), 9);
    }
    cover(1);
}
