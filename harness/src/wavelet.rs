//! Wavelet matrices: storage, symbol counting, order statistics.
use crate::sym::*;
use vers_vecs::{BitVec, WaveletMatrix};

pub const ALL: &[(&str, fn())] = &[
    ("h_wm_store", h_wm_store),
    ("h_wm_store_wide", h_wm_store_wide),
    ("h_wm_store_big", h_wm_store_big),
    ("h_wm_reject", h_wm_reject),
    ("h_wm_rank", h_wm_rank),
    ("h_wm_rank_wide", h_wm_rank_wide),
    ("h_wm_rank_big", h_wm_rank_big),
    ("h_wm_rank_arg", h_wm_rank_arg),
    ("h_wm_order", h_wm_order),
    ("h_wm_order_wide", h_wm_order_wide),
    ("h_wm_order_big", h_wm_order_big),
    ("h_wm_order_arg", h_wm_order_arg),
];

fn make(how: u64, d: &[u64], w: u64) -> WaveletMatrix {
    match how {
        0 => WaveletMatrix::from_slice(d, w as u16),
        1 => WaveletMatrix::from_slice_pc(d, w as u16),
        2 => WaveletMatrix::from_bit_vec(&dirty(BitVec::pack_sequence_u64(d, w as usize)), w as u16),
        _ => WaveletMatrix::from_bit_vec_pc(&dirty(BitVec::pack_sequence_u64(d, w as usize)), w as u16),
    }
}
fn word(x: u64, w: u64) -> BitVec {
    let v = BitVec::pack_sequence_u64(&[x], w as usize);
    if w % 2 == 1 {
        dirty(v)
    } else {
        v
    }
}
#[inline(never)]
fn holds(v: &Option<BitVec>, w: u64, x: u64) -> bool {
    match v {
        Some(v) => (v.len() as u64 == w) & opt_is(v.get_bits(0, w as usize), true, x),
        None => false,
    }
}
/// pseudo-random background content
fn bg(kind: u64, i: u64) -> u64 {
    match kind {
        0 => 0,
        1 => u64::MAX,
        2 => i,
        3 => !i,
        4 => i / 7,
        5 => (i % 3) * 0x5555_5555_5555_5555,
        // nearly all elements equal (counts beyond 2^16 in large matrices)
        6 => if i % 997 == 500 { i } else { 0 },
        7 => if i % 997 == 500 { i } else { u64::MAX },
        _ => (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left((i % 61) as u32),
    }
}
fn trim(x: u64, w: u64) -> u64 {
    x & low(w)
}

// ---------------------------------------------------------------- storage

/// params: N, W. 0..=N arbitrary W-bit elements, four constructors
#[no_mangle]
pub fn h_wm_store() {
    let (nn, w) = (param(0), param(1));
    let c = choose(0, 4 * (nn + 1) - 1);
    let (how, n) = (c % 4, c / 4);
    fork(true);
    let d: Vec<u64> = (0..n).map(|_| any_bits(w)).collect();
    let m = make(how, &d, w);
    check(m.len() as u64 == n, 1);
    check(m.is_empty() == (n == 0), 2);
    if n > 0 || w > 0 {
        check(m.bits_per_element() as u64 == w, 3);
    }
    let mut i = 0;
    while i < n as usize {
        check(opt_is(m.get_u64(i), true, d[i]), 4);
        check(m.get_u64_unchecked(i) == d[i], 5);
        check(holds(&m.get_value(i), w, d[i]), 6);
        check(holds(&Some(m.get_value_unchecked(i)), w, d[i]), 7);
        i += 1;
    }
    let far = any_us();
    assume(far as u64 >= n);
    check(m.get_u64(far).is_none(), 8);
    check(m.get_value(far).is_none(), 9);
    cover(1);
}
/// params: W. Three elements of W bits (W up to 130), free bits at the word borders and both ends
#[no_mangle]
pub fn h_wm_store_wide() {
    let w = param(0) as usize;
    let c = choose(0, 7);
    let how = if w <= 16 { (c % 2) * 2 + 1 } else { (c % 2) * 2 };
    let how = if w > 64 { 2 } else { how };
    let kind = [0u64, 1, 9, 5][(c / 2) as usize];
    let n = 3usize;
    let free = [0, w / 2, w - 1, 63.min(w - 1), 64.min(w - 1)];
    let mut bits: Vec<bool> = vec![];
    for i in 0..n * w {
        let (e, b) = (i / w, i % w);
        let mut x = (bg(kind, (e * 3 + b / 64) as u64) >> (b % 64)) & 1 == 1;
        if free.contains(&b) && (e < 2 || b == w - 1) {
            x = any_bits(1) == 1;
        }
        bits.push(x);
    }
    fork(true);
    let m = if w <= 64 {
        let d: Vec<u64> = (0..n).map(|e| (0..w).fold(0, |a, b| a | (bits[e * w + b] as u64) << b)).collect();
        make(how, &d, w as u64)
    } else {
        let mut bv = BitVec::new();
        for b in &bits {
            bv.append_bit(*b as u64);
        }
        WaveletMatrix::from_bit_vec(&bv, w as u16)
    };
    check(m.len() == n, 1);
    check(m.bits_per_element() == w, 2);
    for e in 0..n {
        let v = m.get_value(e);
        match &v {
            None => check(false, 3),
            Some(v) => {
                check(v.len() == w, 4);
                for b in 0..w {
                    check(v.get(b) == Some(bits[e * w + b] as u64), 5);
                }
            }
        }
        if w <= 64 {
            let x = (0..w).fold(0, |a, b| a | (bits[e * w + b] as u64) << b);
            check(opt_is(m.get_u64(e), true, x), 6);
        } else {
            check(m.get_u64(e).is_none(), 7);
        }
    }
    check(m.get_value(n).is_none(), 8);
    if w > 64 {
        check(m.iter_u64().is_none(), 9);
        check(m.iter_sorted_u64().is_none(), 10);
        check(m.clone().into_iter_u64().is_none(), 11);
        check(m.into_iter_sorted_u64().is_none(), 12);
    }
    cover(1);
}
/// background of n elements with two free ones
fn big(n: u64, w: u64, kind: u64, place: u64) -> (Vec<u64>, usize, usize) {
    let mut d: Vec<u64> = (0..n).map(|i| trim(bg(kind, i), w)).collect();
    let (a, b) = match place {
        0 => (0, n - 1),
        1 => (n / 2, n / 2 + 1),
        2 => (511.min(n - 2), 512.min(n - 1)),
        3 => (63.min(n - 2), 64.min(n - 1)),
        4 => (n / 3, n - 2),
        5 => (1, 1023.min(n - 1)),
        _ => ((place * 7919) % n, (place * 104729 + 5) % n),
    };
    d[a as usize] = any_bits(w);
    if b != a && n < 20000 {
        d[b as usize] = any_bits(w);
    }
    (d, a as usize, b as usize)
}
/// params: n, w, background, places. n elements, two of them arbitrary
#[no_mangle]
pub fn h_wm_store_big() {
    let (n, w, kind, places) = (param(0), param(1), param(2), param(3));
    let c = choose(0, 4 * places - 1);
    fork(true);
    let (d, _, _) = big(n, w, kind, c / 4);
    let m = make(c % 4, &d, w);
    check(m.len() as u64 == n, 1);
    let mut i = 0;
    while i < n as usize {
        check(m.get_u64_unchecked(i) == d[i], 2);
        i += 1;
    }
    check(m.get_u64(n as usize).is_none(), 3);
    check(m.get_u64(n as usize - 1).is_some(), 4);
    cover(1);
}
/// constructors refuse what they cannot store
#[no_mangle]
pub fn h_wm_reject() {
    let c = choose(0, 5);
    let d = [any(), any()];
    let len = choose(1, 12);
    let w = choose(2, 7);
    match c {
        0 | 1 => {
            let mut bv = BitVec::from_zeros(len as usize);
            bv.set_unchecked(0, any_bits(1));
            assume(len % w != 0);
            expect_panic(true);
            if c == 0 {
                let _m = WaveletMatrix::from_bit_vec(&bv, w as u16);
            } else {
                let _m = WaveletMatrix::from_bit_vec_pc(&bv, w as u16);
            }
            expect_panic(false);
        }
        2 | 3 => {
            let k = any_bits(16);
            assume(k > 64);
            expect_panic(true);
            if c == 2 {
                let _m = WaveletMatrix::from_slice(&d, k as u16);
            } else {
                let _m = WaveletMatrix::from_slice_pc(&d, k as u16);
            }
            expect_panic(false);
        }
        _ => {
            // an empty matrix answers every question
            let m = if c == 4 { WaveletMatrix::from_slice(&[], w as u16) } else { WaveletMatrix::from_bit_vec(&BitVec::new(), w as u16) };
            check(m.len() == 0 && m.is_empty(), 1);
            check(m.bits_per_element() as u64 == w, 2);
            let (i, j, s) = (any_us(), any_us(), any_bits(w));
            check(m.get_u64(i).is_none() && m.get_value(i).is_none(), 3);
            check(uopt_is(m.rank_u64(i, s), i == 0, 0), 4);
            check(uopt_is(m.rank(i, &word(s, w)), i == 0, 0), 5);
            check(m.rank_range_u64(i..j, s).is_none() | ((i == 0) & (j == 0)), 6);
            check(m.select_u64(i, s).is_none(), 7);
            check(m.select(i, &word(s, w)).is_none(), 8);
            check(m.select_offset_u64(j, i, s).is_none(), 9);
            check(m.quantile_u64(i..j, 0).is_none(), 10);
            check(m.get_sorted_u64(i).is_none(), 11);
            check(m.get_sorted(i).is_none(), 12);
            check(m.range_min_u64(i..j).is_none() && m.range_max_u64(i..j).is_none(), 13);
            check(m.range_median_u64(i..j).is_none() && m.range_median(i..j).is_none(), 14);
            check(m.predecessor_u64(i..j, s).is_none() && m.successor_u64(i..j, s).is_none(), 15);
            check(m.iter_u64().unwrap().next().is_none() && m.iter_sorted().next_back().is_none(), 16);
            cover(1);
        }
    }
}

// ---------------------------------------------------------------- rank and select

/// all counting queries for the symbol on the ranges given
fn counting(m: &WaveletMatrix, n: usize, w: u64, occ: &[bool], s: u64, sv: &BitVec, ranges: &[(usize, usize)], offsets: &[usize], ranks: &[usize]) {
    for &(i, j) in ranges {
        let mut cnt = 0u64;
        for o in &occ[i..j] {
            cnt += *o as u64;
        }
        if i < n {
            if w <= 64 {
                check(uopt_is(m.rank_range_u64(i..j, s), true, cnt), 1);
                check(m.rank_range_u64_unchecked(i..j, s) as u64 == cnt, 2);
                check(uopt_is(m.rank_offset_u64(i, j, s), true, cnt), 3);
                check(m.rank_offset_u64_unchecked(i, j, s) as u64 == cnt, 4);
            } else {
                check(m.rank_range_u64(i..j, s).is_none(), 5);
                check(m.rank_offset_u64(i, j, s).is_none(), 6);
            }
            check(uopt_is(m.rank_range(i..j, sv), true, cnt), 7);
            check(m.rank_range_unchecked(i..j, sv) as u64 == cnt, 8);
            check(uopt_is(m.rank_offset(i, j, sv), true, cnt), 9);
            check(m.rank_offset_unchecked(i, j, sv) as u64 == cnt, 10);
        }
        if i == 0 {
            if w <= 64 {
                check(uopt_is(m.rank_u64(j, s), true, cnt), 11);
                check(m.rank_u64_unchecked(j, s) as u64 == cnt, 12);
            } else {
                check(m.rank_u64(j, s).is_none(), 13);
            }
            check(uopt_is(m.rank(j, sv), true, cnt), 14);
            check(m.rank_unchecked(j, sv) as u64 == cnt, 15);
        }
    }
    for &o in offsets {
        for &r in ranks {
            let mut pos = n;
            let mut left = r;
            for (i, x) in occ.iter().enumerate().skip(o) {
                if *x {
                    if left == 0 {
                        pos = i;
                        break;
                    }
                    left -= 1;
                }
            }
            let some = pos < n;
            if o < n {
                if w <= 64 {
                    check(uopt_is(m.select_offset_u64(o, r, s), some, pos as u64), 21);
                } else {
                    check(m.select_offset_u64(o, r, s).is_none(), 22);
                }
                check(uopt_is(m.select_offset(o, r, sv), some, pos as u64), 23);
                if some {
                    check(m.select_offset_unchecked(o, r, sv) == pos, 24);
                    if w <= 64 {
                        check(m.select_offset_u64_unchecked(o, r, s) == pos, 25);
                    }
                }
            } else {
                check(m.select_offset(o, r, sv).is_none(), 26);
                check(m.select_offset_u64(o, r, s).is_none(), 27);
            }
            if o == 0 {
                if w <= 64 {
                    check(uopt_is(m.select_u64(r, s), some, pos as u64), 28);
                } else {
                    check(m.select_u64(r, s).is_none(), 29);
                }
                check(uopt_is(m.select(r, sv), some, pos as u64), 30);
                if some {
                    check(m.select_unchecked(r, sv) == pos, 31);
                    if w <= 64 {
                        check(m.select_u64_unchecked(r, s) == pos, 32);
                    }
                }
            }
        }
    }
}
/// params: N, W. 0..=N arbitrary W-bit elements, arbitrary symbol, every range, offset and rank
#[no_mangle]
pub fn h_wm_rank() {
    let (nn, w) = (param(0), param(1));
    let c = choose(0, 2 * (nn + 1) - 1);
    let (how, n) = (c % 2, (c / 2) as usize);
    fork(true);
    let d: Vec<u64> = (0..n).map(|_| any_bits(w)).collect();
    let m = make(how, &d, w);
    let s = any_bits(w);
    let occ: Vec<bool> = d.iter().map(|x| *x == s).collect();
    let mut ranges = vec![];
    for i in 0..=n {
        for j in i..=n {
            ranges.push((i, j));
        }
    }
    let offsets: Vec<usize> = (0..=n + 1).collect();
    counting(&m, n, w, &occ, s, &word(s, w), &ranges, &offsets, &offsets);
    cover(1);
}
/// params: W. Three elements of W bits; symbol equal to one of them except for free bits
#[no_mangle]
pub fn h_wm_rank_wide() {
    let w = param(0) as usize;
    let (m, bits, s) = wide(w, choose(0, 3));
    let n = 3;
    let sv = vec_of(&s);
    let occ: Vec<bool> = (0..n).map(|e| (0..w).all(|b| bits[e][b] == s[b])).collect();
    let su = if w <= 64 { num_of(&s) } else { any() };
    counting(&m, n, w as u64, &occ, su, &sv, &[(0, 0), (0, 1), (0, 2), (0, 3), (1, 3), (2, 3), (1, 2)], &[0, 1, 2, 3], &[0, 1, 2, 3]);
    cover(1);
}
fn vec_of(b: &[bool]) -> BitVec {
    let mut bv = BitVec::new();
    for x in b {
        bv.append_bit(*x as u64);
    }
    dirty(bv)
}
fn num_of(b: &[bool]) -> u64 {
    b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u64) << i)
}
/// three elements and a symbol of w bits, equal up to a few free bits
fn wide(w: usize, kind: u64) -> (WaveletMatrix, Vec<Vec<bool>>, Vec<bool>) {
    let free = [[0, w - 1], [0, w / 2], [w / 2, w - 1], [62.min(w - 2), 63.min(w - 1)]][kind as usize];
    let kind = [0u64, 1, 9, 5][kind as usize];
    let mut bits: Vec<Vec<bool>> = vec![];
    for _ in 0..4 {
        bits.push((0..w).map(|b| if free.contains(&b) { any_bits(1) == 1 } else { (bg(kind, (b / 64) as u64) >> (b % 64)) & 1 == 1 }).collect());
    }
    fork(true);
    let s = bits.pop().unwrap();
    let all: Vec<bool> = bits.concat();
    let m = WaveletMatrix::from_bit_vec(&vec_of(&all), w as u16);
    (m, bits, s)
}
/// params: n, w, background, places
#[no_mangle]
pub fn h_wm_rank_big() {
    let (n, w, kind, places) = (param(0), param(1), param(2), param(3));
    let c = choose(0, places - 1);
    fork(true);
    let (d, a, b) = big(n, w, kind, c);
    let m = make(c % 4, &d, w);
    let s = any_bits(w);
    let occ: Vec<bool> = d.iter().map(|x| *x == s).collect();
    let n = n as usize;
    let total = occ.iter().filter(|x| **x).count();
    let mut ranges = vec![(0, n), (0, n / 2), (n / 2, n), (0, a), (0, a + 1), (a, b.max(a)), (n - 1, n)];
    for x in [64, 512, 1024, 8192] {
        if x < n {
            ranges.push((0, x));
            ranges.push((x - 1, n));
            ranges.push((x, n));
        }
    }
    let offsets = [0, 1, a, a + 1, b, n / 2, n - 1, n];
    let ranks = [0, 1, total / 2, total.wrapping_sub(1), total, total + 1];
    counting(&m, n, w, &occ, s, &word(s, w), &ranges, &offsets, &ranks);
    cover(1);
}
/// arbitrary range bounds, offsets, ranks and symbol widths
#[no_mangle]
pub fn h_wm_rank_arg() {
    let c = choose(0, 11);
    let w = 2u64;
    let n = 2usize;
    fork(true);
    let d = [any_bits(2), any_bits(2)];
    let m = make(c % 2, &d, w);
    let s = any_bits(2);
    let sv = word(s, w);
    let occ = [d[0] == s, d[1] == s];
    let count = |i: usize, j: usize| -> u64 {
        let mut r = 0;
        for k in 0..2 {
            if occ[k] && i <= k && k < j {
                r += 1;
            }
        }
        r
    };
    let (i, j) = (any_us(), any_us());
    let ok = i < n && j <= n && i <= j;
    let edge = i == n && j == n;
    match c / 2 {
        0 => {
            check(uopt_is(m.rank_range_u64(i..j, s), ok, count(i, j)) || edge, 1);
            check(uopt_is(m.rank_range(i..j, &sv), ok, count(i, j)) || edge, 2);
        }
        1 => {
            check(uopt_is(m.rank_offset_u64(i, j, s), ok, count(i, j)) || edge, 3);
            check(uopt_is(m.rank_offset(i, j, &sv), ok, count(i, j)) || edge, 4);
        }
        2 => {
            check(uopt_is(m.rank_u64(j, s), j <= n, count(0, j)), 5);
            check(uopt_is(m.rank(j, &sv), j <= n, count(0, j)), 6);
        }
        3 => {
            // select with arbitrary rank and offset
            let mut pos = n;
            let mut left = j;
            for k in 0..n {
                if k >= i && occ[k] && pos == n {
                    if left == 0 {
                        pos = k;
                    } else {
                        left -= 1;
                    }
                }
            }
            check(uopt_is(m.select_offset_u64(i, j, s), pos < n, pos as u64), 7);
            check(uopt_is(m.select_offset(i, j, &sv), pos < n, pos as u64), 8);
        }
        4 => {
            let pos = if j == 0 && occ[0] { 0 } else if (j == 0 && occ[1]) || (j == 1 && occ[0] && occ[1]) { 1 } else { n };
            check(uopt_is(m.select_u64(j, s), pos < n, pos as u64), 9);
            check(uopt_is(m.select(j, &sv), pos < n, pos as u64), 10);
        }
        _ => {
            // symbols of the wrong width
            let k = choose(0, 4);
            assume(k != w);
            let bad = BitVec::pack_sequence_u64(&[any_bits(4) & low(k)], k as usize);
            let bad = if k == 0 { BitVec::new() } else { bad };
            check(m.rank(1, &bad).is_none(), 11);
            check(m.rank_range(0..2, &bad).is_none(), 12);
            check(m.rank_offset(0, 1, &bad).is_none(), 13);
            check(m.select(0, &bad).is_none(), 14);
            check(m.select_offset(0, 0, &bad).is_none(), 15);
            check(m.predecessor(0..2, &bad).is_none(), 16);
            check(m.successor(0..2, &bad).is_none(), 17);
        }
    }
    cover(1);
}

// ---------------------------------------------------------------- order statistics

/// quantile, minimum, maximum, median of one range with the sorted content `s`
fn stats(m: &WaveletMatrix, w: u64, i: usize, j: usize, s: &[u64], ks: &[usize]) {
    let l = j - i;
    for &k in ks {
        if k < l {
            check(opt_is(m.quantile_u64(i..j, k), true, s[k]), 1);
            check(holds(&m.quantile(i..j, k), w, s[k]), 2);
            check(m.quantile_u64_unchecked(i..j, k) == s[k], 3);
            check(holds(&Some(m.quantile_unchecked(i..j, k)), w, s[k]), 4);
        } else {
            check(m.quantile_u64(i..j, k).is_none(), 5);
            check(m.quantile(i..j, k).is_none(), 6);
        }
        if i == 0 && j == m.len() {
            if k < l {
                check(opt_is(m.get_sorted_u64(k), true, s[k]), 7);
                check(holds(&m.get_sorted(k), w, s[k]), 8);
                check(m.get_sorted_u64_unchecked(k) == s[k], 9);
                check(holds(&Some(m.get_sorted_unchecked(k)), w, s[k]), 10);
            } else {
                check(m.get_sorted_u64(k).is_none(), 11);
                check(m.get_sorted(k).is_none(), 12);
            }
        }
    }
    if l > 0 {
        let md = s[(l - 1) / 2];
        check(opt_is(m.range_min_u64(i..j), true, s[0]), 13);
        check(holds(&m.range_min(i..j), w, s[0]), 14);
        check(m.range_min_u64_unchecked(i..j) == s[0], 15);
        check(holds(&Some(m.range_min_unchecked(i..j)), w, s[0]), 16);
        check(opt_is(m.range_max_u64(i..j), true, s[l - 1]), 17);
        check(holds(&m.range_max(i..j), w, s[l - 1]), 18);
        check(m.range_max_u64_unchecked(i..j) == s[l - 1], 19);
        check(holds(&Some(m.range_max_unchecked(i..j)), w, s[l - 1]), 20);
        check(opt_is(m.range_median_u64(i..j), true, md), 21);
        check(holds(&m.range_median(i..j), w, md), 22);
        check(m.range_median_u64_unchecked(i..j) == md, 23);
        check(holds(&Some(m.range_median_unchecked(i..j)), w, md), 24);
    } else {
        check(m.range_min_u64(i..j).is_none() && m.range_min(i..j).is_none(), 25);
        check(m.range_max_u64(i..j).is_none() && m.range_max(i..j).is_none(), 26);
        check(m.range_median_u64(i..j).is_none() && m.range_median(i..j).is_none(), 27);
    }
}
/// predecessor and successor of x in one range with the sorted content `s`
fn near(m: &WaveletMatrix, w: u64, i: usize, j: usize, s: &[u64], x: u64) {
    let xv = word(x, w);
    let mut p = None;
    let mut q = None;
    for y in s {
        if *y <= x {
            p = Some(*y);
        } else if q.is_none() {
            q = Some(*y);
        }
        if *y == x {
            q = Some(x);
        }
    }
    let pu = m.predecessor_u64(i..j, x);
    let su = m.successor_u64(i..j, x);
    match p {
        Some(y) => {
            check(opt_is(pu, true, y), 31);
            check(holds(&m.predecessor(i..j, &xv), w, y), 32);
        }
        None => {
            check(pu.is_none(), 33);
            check(m.predecessor(i..j, &xv).is_none(), 34);
        }
    }
    match q {
        Some(y) => {
            check(opt_is(su, true, y), 35);
            check(holds(&m.successor(i..j, &xv), w, y), 36);
        }
        None => {
            check(su.is_none(), 37);
            check(m.successor(i..j, &xv).is_none(), 38);
        }
    }
}
fn insert(s: &mut Vec<u64>, x: u64) {
    let mut k = s.len();
    while k > 0 && s[k - 1] > x {
        k -= 1;
    }
    s.insert(k, x);
}
/// params: N, W. 1..=N arbitrary W-bit elements, every range and rank; arbitrary symbol
#[no_mangle]
pub fn h_wm_order() {
    let (nn, w) = (param(0), param(1));
    let c = choose(0, 4 * nn - 1);
    let (how, n) = (c % 4, (c / 4 + 1) as usize);
    fork(true);
    let d: Vec<u64> = (0..n).map(|_| any_bits(w)).collect();
    let m = make(how / 2, &d, w);
    let ks: Vec<usize> = (0..=n + 1).collect();
    let x = if how % 2 == 1 { any_bits(w) } else { 0 };
    for i in 0..n {
        let mut s = vec![];
        for j in i..=n {
            if how % 2 == 0 {
                stats(&m, w, i, j, &s, &ks);
            } else {
                near(&m, w, i, j, &s, x);
            }
            if j < n {
                insert(&mut s, d[j]);
            }
        }
    }
    cover(1);
}
/// params: W. Three elements of W bits, equal up to free bits
#[no_mangle]
pub fn h_wm_order_wide() {
    let w = param(0) as usize;
    let (m, bits, x) = wide(w, choose(0, 3));
    let xv = vec_of(&x);
    let n = 3;
    // compare from the most significant bit
    let less = |a: &[bool], b: &[bool]| -> bool {
        for k in (0..w).rev() {
            if a[k] != b[k] {
                return b[k];
            }
        }
        false
    };
    let same = |v: &Option<BitVec>, a: &[bool]| -> bool {
        match v {
            None => false,
            Some(v) => {
                if v.len() != w {
                    return false;
                }
                for k in 0..w {
                    if v.get(k) != Some(a[k] as u64) {
                        return false;
                    }
                }
                true
            }
        }
    };
    for (i, j) in [(0usize, 3usize), (0, 1), (1, 3), (0, 2)] {
        let mut o: Vec<usize> = vec![];
        for e in i..j {
            let mut k = o.len();
            while k > 0 && less(&bits[e], &bits[o[k - 1]]) {
                k -= 1;
            }
            o.insert(k, e);
        }
        let l = j - i;
        for k in 0..l {
            check(same(&m.quantile(i..j, k), &bits[o[k]]), 1);
            if l == n {
                check(same(&m.get_sorted(k), &bits[o[k]]), 2);
            }
        }
        check(m.quantile(i..j, l).is_none(), 3);
        check(same(&m.range_min(i..j), &bits[o[0]]), 4);
        check(same(&m.range_max(i..j), &bits[o[l - 1]]), 5);
        check(same(&m.range_median(i..j), &bits[o[(l - 1) / 2]]), 6);
        let mut p = None;
        let mut q = None;
        for &e in &o {
            if !less(&x, &bits[e]) {
                p = Some(e);
            }
            if !less(&bits[e], &x) && q.is_none() {
                q = Some(e);
            }
        }
        match p {
            Some(e) => check(same(&m.predecessor(i..j, &xv), &bits[e]), 7),
            None => check(m.predecessor(i..j, &xv).is_none(), 8),
        }
        match q {
            Some(e) => check(same(&m.successor(i..j, &xv), &bits[e]), 9),
            None => check(m.successor(i..j, &xv).is_none(), 10),
        }
        if w <= 64 {
            let nx = num_of(&x);
            for k in 0..l {
                check(opt_is(m.quantile_u64(i..j, k), true, num_of(&bits[o[k]])), 11);
            }
            check(opt_is(m.range_median_u64(i..j), true, num_of(&bits[o[(l - 1) / 2]])), 12);
            check(opt_is(m.predecessor_u64(i..j, nx), p.is_some(), p.map_or(0, |e| num_of(&bits[e]))), 13);
            check(opt_is(m.successor_u64(i..j, nx), q.is_some(), q.map_or(0, |e| num_of(&bits[e]))), 14);
        } else {
            let nx = any();
            check(m.quantile_u64(i..j, 0).is_none(), 15);
            check(m.get_sorted_u64(0).is_none(), 16);
            check(m.range_min_u64(i..j).is_none(), 17);
            check(m.range_max_u64(i..j).is_none(), 18);
            check(m.range_median_u64(i..j).is_none(), 19);
            check(m.predecessor_u64(i..j, nx).is_none(), 20);
            check(m.successor_u64(i..j, nx).is_none(), 21);
        }
    }
    cover(1);
}
/// params: n, w, background, places
#[no_mangle]
pub fn h_wm_order_big() {
    let (n, w, kind, places) = (param(0), param(1), param(2), param(3));
    let c = choose(0, 2 * places - 1);
    fork(true);
    let (d, a, b) = big(n, w, kind, c / 2);
    let m = make((c / 2) % 4, &d, w);
    let n = n as usize;
    let (a, b) = (a.min(b), a.max(b));
    let ranges = [(0, n), (0, a + 1), (a, b + 1), (b, n), (a + 1, b), (n / 3, 2 * n / 3), (a / 2, b)];
    let x = if c % 2 == 1 { any_bits(w) } else { 0 };
    for (i, j) in ranges {
        if i > j || j > n || i == n {
            continue;
        }
        // background elements in order, then the free ones inserted
        let mut s: Vec<u64> = (i..j).filter(|k| *k != a && *k != b).map(|k| d[k]).collect();
        s.sort_unstable();
        let mut pos = vec![];
        for k in [a, b] {
            if i <= k && k < j && (k != b || b != a || pos.is_empty()) {
                // binary search keeps the number of comparisons small
                let (mut lo, mut hi) = (0, s.len());
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    if s[mid] > d[k] {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                s.insert(lo, d[k]);
                pos.push(lo);
            }
        }
        let l = j - i;
        if c % 2 == 0 {
            let mut ks = vec![0, 1, l / 2, l.wrapping_sub(1), l, l + 1];
            for p in pos {
                ks.push(p);
                ks.push(p + 1);
                ks.push(p.saturating_sub(1));
            }
            stats(&m, w, i, j, &s, &ks);
        } else {
            near(&m, w, i, j, &s, x);
        }
    }
    cover(1);
}
/// arbitrary range bounds and ranks
#[no_mangle]
pub fn h_wm_order_arg() {
    let c = choose(0, 11);
    let (w, n) = (2u64, 2usize);
    fork(true);
    let d = [any_bits(2), any_bits(2)];
    let m = make(c % 2, &d, w);
    let (i, j, k) = (any_us(), any_us(), any_us());
    let ok = i < j && j <= n;
    let (lo, hi) = if d[0] < d[1] { (d[0], d[1]) } else { (d[1], d[0]) };
    // element of rank k of the range
    let at = |k: usize| -> u64 {
        if i == 0 && j == 2 {
            if k == 0 { lo } else { hi }
        } else if i == 0 {
            d[0]
        } else {
            d[1]
        }
    };
    let is = |o: Option<u64>, v: &Option<BitVec>, some: bool, x: u64| -> bool {
        if some { (o == Some(x)) && holds(v, w, x) } else { o.is_none() && v.is_none() }
    };
    match c / 2 {
        0 => check(is(m.quantile_u64(i..j, k), &m.quantile(i..j, k), ok && k < j - i, at(k)), 1),
        1 => check(is(m.range_min_u64(i..j), &m.range_min(i..j), ok, at(0)), 2),
        2 => check(is(m.range_max_u64(i..j), &m.range_max(i..j), ok, if i == 0 && j == 2 { hi } else { at(0) }), 3),
        3 => check(is(m.range_median_u64(i..j), &m.range_median(i..j), ok, at(0)), 4),
        4 => check(is(m.get_sorted_u64(k), &m.get_sorted(k), k < n, if k == 0 { lo } else { hi }), 5),
        _ => {
            let x = any_bits(2);
            let (mut p, mut q) = (None, None);
            if ok {
                for y in [lo, hi] {
                    let inside = (i == 0 && j == 2) || y == at(0);
                    if inside && y <= x {
                        p = Some(y);
                    }
                    if inside && y >= x && q.is_none() {
                        q = Some(y);
                    }
                }
            }
            let xv = word(x, w);
            check(is(m.predecessor_u64(i..j, x), &m.predecessor(i..j, &xv), p.is_some(), p.unwrap_or(0)), 6);
            check(is(m.successor_u64(i..j, x), &m.successor(i..j, &xv), q.is_some(), q.unwrap_or(0)), 7);
        }
    }
    cover(1);
}
