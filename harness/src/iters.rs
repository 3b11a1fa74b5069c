//! The contract of the element iterators: histories of calls compared with two cursors.
use crate::sym::*;
use vers_vecs::{BitVec, RsVec, WaveletMatrix};

pub const ALL: &[(&str, fn())] = &[
    ("h_it_hist", h_it_hist),
    ("h_it_arg", h_it_arg),
    ("h_it_long", h_it_long),
    ("h_it_jump", h_it_jump),
    ("h_it_wavelet", h_it_wavelet),
    ("h_it_wm_long", h_it_wm_long),
];

/// one history of `steps` calls followed by a consuming call; e(i, x): x is the i-th element
#[inline(always)]
pub fn drive<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, n: u64, steps: u64, symbolic: bool, e: impl Fn(u64, &T) -> bool) {
    let (mut lo, mut hi) = (0, n);
    check(it.len() as u64 == n, 1);
    for _ in 0..steps {
        let op = choose(0, 3);
        let a = if op < 2 {
            0
        } else if symbolic {
            any()
        } else {
            match choose(0, 5) {
                4 => hi - lo,
                5 => u64::MAX,
                x => x,
            }
        };
        let left = hi - lo;
        let have = a < left;
        let (r, idx) = match op {
            0 => (it.next(), lo),
            1 => (it.next_back(), hi.wrapping_sub(1)),
            2 => (it.nth(a as usize), lo.wrapping_add(a)),
            _ => (it.nth_back(a as usize), hi.wrapping_sub(1).wrapping_sub(a)),
        };
        match &r {
            None => check(!have, 2),
            Some(x) => check(have & e(idx, x), 3),
        }
        if op & 1 == 0 {
            lo = sel(have, idx.wrapping_add(1), hi);
        } else {
            hi = sel(have, idx, lo);
        }
        check(it.len() as u64 == hi - lo, 4);
        let (l, u) = it.size_hint();
        check((l as u64 == hi - lo) & uopt_is(u, true, hi - lo), 5);
    }
    match choose(0, 4) {
        0 => check(it.count() as u64 == hi - lo, 6),
        1 => match it.last() {
            None => check(hi == lo, 7),
            Some(x) => check((lo < hi) && e(hi - 1, &x), 8),
        },
        2 => {
            if !symbolic {
                let mut i = lo;
                for x in it {
                    check(i < hi && e(i, &x), 9);
                    i += 1;
                }
                check(i == hi, 10);
            }
        }
        3 => {
            if !symbolic {
                let mut i = hi;
                for x in it.rev() {
                    check(i > lo && e(i - 1, &x), 11);
                    i -= 1;
                }
                check(i == lo, 12);
            }
        }
        _ => {
            // stays exhausted
            check(it.nth(u64::MAX as usize).is_none(), 13);
            check(it.next().is_none(), 14);
            check(it.next_back().is_none(), 15);
            check(it.nth_back(0).is_none(), 16);
            check(it.nth(0).is_none(), 17);
            check(it.len() == 0, 18);
        }
    }
    cover(1);
}
#[inline(always)]
fn run(kind: u64, l: &[u64], n: u64, steps: u64, symbolic: bool) {
    let mut bv = BitVec::from_limbs(l);
    bv.drop_last(64 * l.len() - n as usize);
    let e = |i: u64, x: &u64| (l[((i / 64) as usize).min(l.len() - 1)] >> (i % 64)) & 1 == *x;
    match kind {
        0 => drive(bv.iter(), n, steps, symbolic, e),
        1 => drive(bv.into_iter(), n, steps, symbolic, e),
        2 => drive(RsVec::from_bit_vec(bv).iter(), n, steps, symbolic, e),
        _ => drive(RsVec::from_bit_vec(bv).into_iter(), n, steps, symbolic, e),
    }
}
/// all histories of param0 calls on vectors of 0..=4 elements, content arbitrary
#[no_mangle]
pub fn h_it_hist() {
    let c = choose(0, 19);
    run(c % 4, &[any()], c / 4, param(0), false);
}
/// histories of param0 calls with arbitrary arguments on vectors of 0..=70 elements
#[no_mangle]
pub fn h_it_arg() {
    let c = choose(0, 23);
    run(c % 4, &[any(), any()], [0, 1, 2, 63, 64, 70][(c / 4) as usize], param(0), true);
}
/// long vectors (param0 limbs), plain enumeration in both directions and by skipping
#[no_mangle]
pub fn h_it_long() {
    let c = choose(0, 3);
    let n = param(0);
    let mut l = Vec::with_capacity(n as usize);
    for _ in 0..n {
        l.push(any());
    }
    let cut = [0, 1, 63][choose(0, 2) as usize];
    let len = 64 * n - cut;
    let mut bv = BitVec::from_limbs(&l);
    bv.drop_last(cut as usize);
    let b = |i: u64| (l[(i / 64) as usize] >> (i % 64)) & 1;
    let r = RsVec::from_bit_vec(bv.clone());
    match c {
        0 => {
            let mut i = 0;
            for x in &bv {
                check(x == b(i), 1);
                i += 1;
            }
            check(i == len, 2);
        }
        1 => {
            let mut i = len;
            for x in r.iter().rev() {
                i -= 1;
                check(x == b(i), 3);
            }
            check(i == 0, 4);
        }
        2 => {
            let mut i = 0;
            for x in r.into_iter().skip(3).step_by(61) {
                check(x == b(3 + 61 * i), 5);
                i += 1;
            }
            check(i == (len - 3).div_ceil(61), 6);
        }
        _ => {
            let mut i = 0;
            for x in bv.into_iter().rev().step_by(67) {
                check(x == b(len - 1 - 67 * i), 7);
                i += 1;
            }
            check(i == len.div_ceil(67), 8);
        }
    }
    cover(1);
}
/// wavelet iterators: two-bit elements, 0..=3 of them
#[no_mangle]
pub fn h_it_wavelet() {
    let c = choose(0, 31);
    let n = c / 8;
    let (w, steps) = (2u64, param(0));
    let d = [any_bits(2), any_bits(2), any_bits(2)];
    let m = WaveletMatrix::from_slice(&d[..n as usize], w as u16);
    // sorted copy, branch-free
    let (mn, mx) = (|a: u64, b: u64| sel(a < b, a, b), |a: u64, b: u64| sel(a < b, b, a));
    let s = match n {
        2 => [mn(d[0], d[1]), mx(d[0], d[1]), 0],
        3 => {
            let (a, b) = (mn(d[0], d[1]), mx(d[0], d[1]));
            let (b, c) = (mn(b, d[2]), mx(b, d[2]));
            [mn(a, b), mx(a, b), c]
        }
        _ => d,
    };
    let ev = |i: u64, x: &BitVec| (x.len() as u64 == w) & opt_is(x.get_bits(0, w as usize), true, d[(i as usize).min(2)]);
    let eu = |i: u64, x: &u64| *x == d[(i as usize).min(2)];
    let sv = |i: u64, x: &BitVec| (x.len() as u64 == w) & opt_is(x.get_bits(0, w as usize), true, s[(i as usize).min(2)]);
    let su = |i: u64, x: &u64| *x == s[(i as usize).min(2)];
    match c % 8 {
        0 => drive(m.iter(), n, steps, false, ev),
        1 => drive(m.into_iter(), n, steps, false, ev),
        2 => drive(m.iter_u64().unwrap(), n, steps, false, eu),
        3 => drive(m.into_iter_u64().unwrap(), n, steps, false, eu),
        4 => drive(m.iter_sorted(), n, steps, false, sv),
        5 => drive(m.into_iter_sorted(), n, steps, false, sv),
        6 => drive(m.iter_sorted_u64().unwrap(), n, steps, false, su),
        _ => drive(m.into_iter_sorted_u64().unwrap(), n, steps, false, su),
    }
}
/// vectors of param0 words: an arbitrary jump from the front and one from the back, in either order, then the rest
#[no_mangle]
pub fn h_it_jump() {
    let c = choose(0, 7);
    let n = param(0);
    let l: Vec<u64> = (0..n).map(|_| any()).collect();
    let cut = [0, 5][choose(0, 1) as usize];
    let len = 64 * n - cut;
    let mut bv = BitVec::from_limbs(&l);
    bv.drop_last(cut as usize);
    let l = &l;
    let e = |i: u64, x: &u64| *x == (l[((i / 64).min(n - 1)) as usize] >> (i % 64)) & 1;
    match c % 4 {
        0 => jump(bv.iter(), len, c / 4 == 1, e),
        1 => jump(bv.into_iter(), len, c / 4 == 1, e),
        2 => jump(RsVec::from_bit_vec(bv).iter(), len, c / 4 == 1, e),
        _ => jump(RsVec::from_bit_vec(bv).into_iter(), len, c / 4 == 1, e),
    }
    cover(1);
}
#[inline(always)]
fn jump<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, n: u64, back: bool, e: impl Fn(u64, &T) -> bool) {
    let (i, j) = (any(), any());
    // what is left of the other end never matters for this one as long as they do not meet
    assume(i < n && j < n - i - 1);
    if back {
        check(matches!(it.nth_back(j as usize), Some(x) if e(n - 1 - j, &x)), 1);
        check(it.len() as u64 == n - 1 - j, 2);
        check(matches!(it.nth(i as usize), Some(x) if e(i, &x)), 3);
    } else {
        check(matches!(it.nth(i as usize), Some(x) if e(i, &x)), 4);
        check(it.len() as u64 == n - 1 - i, 5);
        check(matches!(it.nth_back(j as usize), Some(x) if e(n - 1 - j, &x)), 6);
    }
    let left = n - 2 - i - j;
    check(it.len() as u64 == left, 7);
    let k = any();
    match it.nth(k as usize) {
        None => check(k >= left, 8),
        Some(x) => check(k < left && e(i + 1 + k, &x), 9),
    }
    check(it.len() as u64 == sel(k < left, left.wrapping_sub(1).wrapping_sub(k), 0), 10);
}
/// params: elements, width, background: wavelet iterators over a long sequence with two free elements
#[no_mangle]
pub fn h_it_wm_long() {
    let (n, w, kind) = (param(0), param(1), param(2));
    let c = choose(0, 15);
    fork(true);
    let mut d: Vec<u64> = (0..n).map(|i| (crate::rsvec::bg(kind, i) >> 7) & low(w)).collect();
    for k in [n / 2, n - 1] {
        d[k as usize] = concretize(any_bits(2));
    }
    let m = WaveletMatrix::from_slice(&d, w as u16);
    let mut s = d.clone();
    s.sort_unstable();
    let (d, s) = (&d, &s);
    let ev = |i: u64, x: &BitVec| x.len() as u64 == w && x.get_bits(0, w as usize) == Some(d[i as usize]);
    let eu = |i: u64, x: &u64| *x == d[i as usize];
    let sv = |i: u64, x: &BitVec| x.len() as u64 == w && x.get_bits(0, w as usize) == Some(s[i as usize]);
    let su = |i: u64, x: &u64| *x == s[i as usize];
    let b = c / 8 == 1;
    match c % 8 {
        0 => walk(m.iter(), n, b, ev),
        1 => walk(m.into_iter(), n, b, ev),
        2 => walk(m.iter_u64().unwrap(), n, b, eu),
        3 => walk(m.into_iter_u64().unwrap(), n, b, eu),
        4 => walk(m.iter_sorted(), n, b, sv),
        5 => walk(m.into_iter_sorted(), n, b, sv),
        6 => walk(m.iter_sorted_u64().unwrap(), n, b, su),
        _ => walk(m.into_iter_sorted_u64().unwrap(), n, b, su),
    }
    cover(1);
}
/// consumes from both ends with growing steps
#[inline(always)]
pub fn walk<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: I, n: u64, back: bool, e: impl Fn(u64, &T) -> bool) {
    walk_by(it, n, back, |k| k / 3, e)
}
#[inline(always)]
pub fn walk_by<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, n: u64, back: bool, by: impl Fn(u64) -> u64, e: impl Fn(u64, &T) -> bool) {
    let (mut lo, mut hi, mut k) = (0, n, 0);
    let mut from_back = back;
    while lo < hi {
        let a = by(k) % (hi - lo + 1);
        let r = if from_back { it.nth_back(a as usize) } else { it.nth(a as usize) };
        let have = a < hi - lo;
        check(r.is_some() == have, 1);
        if let Some(x) = r {
            check(e(if from_back { hi - 1 - a } else { lo + a }, &x), 2);
        }
        if from_back {
            hi = if have { hi - 1 - a } else { lo };
        } else {
            lo = if have { lo + a + 1 } else { hi };
        }
        check(it.len() as u64 == hi - lo, 3);
        k += 1;
        if k % 5 != 0 {
            from_back = !from_back;
        }
    }
    check(it.next().is_none() && it.next_back().is_none(), 4);
}
