//! Elias-Fano vectors and the sparse bit vector on top of them.
use crate::iters::drive;
use crate::sym::*;
use vers_vecs::{BitVec, EliasFanoVec, SparseRSVec};

pub const ALL: &[(&str, fn())] = &[
    ("h_ef_store", h_ef_store),
    ("h_ef_iter", h_ef_iter),
    ("h_ef_large", h_ef_large),
    ("h_ef_search", h_ef_search),
    ("h_ef_bucket", h_ef_bucket),
    ("h_ef_big_search", h_ef_big_search),
    ("h_ef_huge", h_ef_huge),
    ("h_ef_huge_iter", h_ef_huge_iter),
    ("h_sp_huge", h_sp_huge),
    ("h_sp_list", h_sp_list),
    ("h_sp_bucket", h_sp_bucket),
    ("h_sp_bits", h_sp_bits),
    ("h_sp_bits_long", h_sp_bits_long),
    ("h_sp_large", h_sp_large),
];

const BOUNDS: [u64; 16] = [
    1,
    2,
    0,
    3,
    4,
    5,
    7,
    8,
    9,
    31,
    1000,
    1 << 20,
    (1 << 33) + 1,
    (1 << 62) + 12345,
    1 << 63,
    u64::MAX,
];
/// `n` sorted elements: a first one, the given distance to the last one, everything else arbitrary
#[inline(always)]
pub fn sorted(n: u64, bound: u64) -> Vec<u64> {
    let z = any();
    assume(z <= u64::MAX - bound);
    let mut d = Vec::with_capacity(n as usize);
    let mut last = 0;
    for i in 0..n {
        let x = if i == 0 {
            0
        } else if i == n - 1 {
            bound
        } else {
            let x = any();
            assume((x >= last) & (x <= bound));
            x
        };
        last = x;
        d.push(z.wrapping_add(x));
    }
    d
}
#[inline(always)]
fn pick(max_n: u64) -> Vec<u64> {
    let c = choose(0, 16 * max_n);
    if c == 0 {
        return sorted(0, 0);
    }
    let n = (c - 1) / 16 + 1;
    sorted(n, if n == 1 { 0 } else { BOUNDS[((c - 1) % 16) as usize] })
}
#[inline(always)]
fn at(d: &[u64], i: u64) -> u64 {
    let mut r = 0;
    for (j, &x) in d.iter().enumerate() {
        r = sel(i == j as u64, x, r);
    }
    r
}
/// get, select, get_unchecked, delta of 0..=param0 arbitrary elements
#[no_mangle]
pub fn h_ef_store() {
    let d = pick(param(0));
    let n = d.len();
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    check(ef.len() == n, 1);
    check(ef.is_empty() == (n == 0), 2);
    fork(true);
    for i in 0..n {
        check(ef.get_unchecked(i) == d[i], 3);
        check(opt_is(ef.get(i), true, d[i]), 4);
        check(opt_is(ef.select(i), true, d[i]), 5);
        let delta = if i == 0 { d[0] } else { d[i].wrapping_sub(d[i - 1]) };
        check(opt_is(ef.delta(i), true, delta), 6);
    }
    let i = any_us();
    assume(i >= n);
    check(ef.get(i).is_none(), 7);
    check(ef.select(i).is_none(), 8);
    check(ef.delta(i).is_none(), 9);
    cover(1);
}
/// histories of param1 calls on the iterators over 0..=param0 elements, min and max
#[no_mangle]
pub fn h_ef_iter() {
    let d = pick(param(0));
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    let n = d.len() as u64;
    fork(true);
    match choose(0, 3) {
        0 => drive(ef.iter(), n, param(1), false, |i, x| *x == d[i as usize]),
        1 => drive(ef.into_iter(), n, param(1), false, |i, x| *x == d[i as usize]),
        2 => {
            let mut it = ef.iter();
            let lo = choose(0, n);
            let hi = choose(0, n - lo);
            for _ in 0..lo {
                it.next();
            }
            for _ in 0..hi {
                it.next_back();
            }
            let has = lo + hi < n;
            check(opt_is(it.clone().min(), has, if has { d[lo as usize] } else { 0 }), 20);
            check(opt_is(it.max(), has, if has { d[(n - 1 - hi) as usize] } else { 0 }), 21);
        }
        _ => {
            let mut it = ef.into_iter();
            let lo = choose(0, n);
            let hi = choose(0, n - lo);
            for _ in 0..lo {
                it.next();
            }
            for _ in 0..hi {
                it.next_back();
            }
            let has = lo + hi < n;
            check(opt_is(it.clone().min(), has, if has { d[lo as usize] } else { 0 }), 22);
            check(opt_is(it.max(), has, if has { d[(n - 1 - hi) as usize] } else { 0 }), 23);
        }
    }
    cover(1);
}
/// gaps of the large vectors
#[inline(always)]
pub fn gap(kind: u64, i: u64) -> u64 {
    match kind {
        0 => 1,
        1 => 37,
        // runs of duplicates
        2 => (i % 40 == 0) as u64 * 1000,
        // clusters
        3 => {
            if i % 64 == 0 {
                1 << 22
            } else {
                (i * i) % 7
            }
        }
        4 => (i % 3 == 0) as u64,
        // large buckets with long runs of equal elements
        6 => match i % 500 {
            0 => 1 << 24,
            20 | 250 => 3,
            480..=490 => 1,
            _ => 0,
        },
        // large buckets of different elements
        7 => if i % 500 == 0 { 1 << 24 } else { 1 + i % 2 },
        // nearly the whole range of numbers
        8 => crate::rsvec::bg(9, i) >> 18,
        // two enormous buckets far apart
        10 => if i == 900 { 1 << 60 } else { i % 3 },
        _ => crate::rsvec::bg(9, i) >> 40,
    }
}
/// param0 elements with gaps of kind param1; the elements at a chosen place are arbitrary in between
#[inline(always)]
pub fn large(n: u64, kind: u64, a: u64, free: u64) -> Vec<u64> {
    let mut d = Vec::with_capacity(n as usize);
    let mut x = 1000u64;
    for i in 0..n {
        d.push(x);
        x += gap(kind, i);
    }
    let mut last = d[a as usize - 1];
    let top = d[(a + free) as usize];
    for i in a..a + free {
        let y = any();
        assume((y >= last) & (y <= top));
        last = y;
        d[i as usize] = y;
    }
    d
}
#[no_mangle]
pub fn h_ef_large() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let a = choose(0, places - 1) * (n - 3) / places + 1;
    let d = large(n, kind, a, 1);
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    fork(true);
    for i in [a - 1, a, a + 1, 0, n - 1, n / 2, n / 3, (a + 63) % n, (a + 64) % n, (a + 511) % n] {
        check(opt_is(ef.get(i as usize), true, d[i as usize]), 1);
        let delta = if i == 0 { d[0] } else { d[i as usize].wrapping_sub(d[i as usize - 1]) };
        check(opt_is(ef.delta(i as usize), true, delta), 2);
    }
    check(ef.get(n as usize).is_none(), 3);
    cover(1);
}
/// predecessor, successor and rank of z + q against the elements z + o[i]
#[inline(always)]
fn queries(ef: &EliasFanoVec, z: u64, o: &[u64], q: u64) {
    let n = o.len();
    let query = z.wrapping_add(q);
    fork(true);
    let (p, s, r) = (ef.predecessor(query), ef.successor(query), ef.rank(query));
    fork(false);
    // the list is sorted: r elements are below q exactly if the r-th is not and the one before is
    check(r <= n as u64, 1);
    let r = concretize(r) as usize;
    if r > 0 {
        check(o[r - 1] < q, 2);
    }
    if r < n {
        check(o[r] >= q, 3);
    }
    let here = r < n && o[r] == q;
    if here {
        check(opt_is(p, true, query), 4);
        check(opt_is(s, true, query), 5);
        cover(1);
        return;
    }
    match p {
        None => check(r == 0, 6),
        Some(x) => check(r > 0 && x == z.wrapping_add(o[r - 1]), 7),
    }
    match s {
        None => check(r == n, 8),
        Some(x) => check(r < n && x == z.wrapping_add(o[r]), 9),
    }
    cover(2);
}
/// queries left of the first and right of the last element
#[inline(always)]
fn outside(ef: &EliasFanoVec, d: &[u64]) {
    let q = any();
    fork(true);
    let (p, s, r) = (ef.predecessor(q), ef.successor(q), ef.rank(q));
    fork(false);
    let n = d.len();
    if n == 0 {
        check(p.is_none() && s.is_none() && r == 0, 10);
    } else if q < d[0] {
        check(p.is_none() & opt_is(s, true, d[0]) & (r == 0), 11);
    } else if q > d[n - 1] {
        check(opt_is(p, true, d[n - 1]) & s.is_none() & (r == n as u64), 12);
    }
    cover(3);
}
#[inline(always)]
fn base(bound: u64) -> u64 {
    match choose(0, 2) {
        0 => 0,
        1 => (u64::MAX - bound).min(12345),
        _ => u64::MAX - bound,
    }
}
/// any query on 0..=param0 arbitrary elements
#[no_mangle]
pub fn h_ef_search() {
    let c = choose(0, 16 * param(0));
    let n = c.div_ceil(16);
    let bound = if n < 2 { 0 } else { BOUNDS[((c - 1) % 16) as usize] };
    let z = base(bound);
    let mut o = Vec::with_capacity(n as usize);
    let mut last = 0;
    for i in 0..n {
        let x = if i == 0 {
            0
        } else if i == n - 1 {
            bound
        } else {
            let x = any();
            assume((x >= last) & (x <= bound));
            x
        };
        last = x;
        o.push(x);
    }
    let mut d = Vec::with_capacity(n as usize);
    for &x in &o {
        d.push(z.wrapping_add(x));
    }
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    if choose(0, 1) == 0 {
        let q = any();
        assume(q <= bound);
        queries(&ef, z, &o, q);
    } else {
        outside(&ef, &d);
    }
}
/// a bucket of param0 elements that share their upper bits (linear and binary search within it)
#[no_mangle]
pub fn h_ef_bucket() {
    let m = param(0);
    let c = choose(0, 3);
    // the bucket lies at the beginning, in the middle or at the end
    let (pre, post) = [(1, 1), (1, 3), (3, 1), (2, 2)][c as usize];
    let n = m + pre + post;
    let log = 64 - (n - 1).leading_zeros() as u64;
    // lower width w, upper values 0..2^log
    let w = [6, 3, 40, 12][c as usize];
    let up = [1, 1, (1 << log) - 1, 2][c as usize];
    let max = (((1u64 << log) - 1) << w) + ((1 << w) - 1);
    let z = [0, 999, u64::MAX - max][(c % 3) as usize];
    let mut o = Vec::with_capacity(n as usize);
    for _ in 0..pre {
        o.push(0);
    }
    let mut last = 0;
    for _ in 0..m {
        let x = any_bits(w);
        assume(x >= last);
        last = x;
        o.push((up << w) | x);
    }
    for _ in 0..post {
        o.push(max);
    }
    let mut d = Vec::with_capacity(n as usize);
    for &x in &o {
        d.push(z.wrapping_add(x));
    }
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    let q = any_bits(w);
    queries(&ef, z, &o, (up << w) | q);
}
/// queries next to the free elements of a large vector (params: elements, kind, places)
#[no_mangle]
pub fn h_ef_big_search() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let a = choose(0, places - 1) * (n - 4) / places + 1;
    let d = large(n, kind, a, 1);
    fork(true);
    let ef = EliasFanoVec::from_slice(&d);
    fork(false);
    let k = choose(0, 8);
    // from two elements before to one behind the free element, or around a multiple of n / 8
    let (lo, hi) = if k == 8 { (a.saturating_sub(2), a + 2) } else { (k * (n - 2) / 8, k * (n - 2) / 8 + 1) };
    let (l, h) = (d[lo as usize], d[hi as usize]);
    // only the elements between count: everything before is not above l, everything behind not below h
    let q = any();
    assume((q > l) & (q <= h));
    fork(true);
    let (p, s, r) = (ef.predecessor(q), ef.successor(q), ef.rank(q));
    fork(false);
    let (mut below, mut pv, mut sv) = (lo, l, h);
    for i in lo..=hi {
        let x = d[i as usize];
        below = below.wrapping_add((x < q) as u64);
        pv = sel(x <= q, x, pv);
        let y = d[(hi - (i - lo)) as usize];
        sv = sel(y >= q, y, sv);
    }
    check(r == below, 1);
    check(opt_is(p, true, pv), 2);
    check(opt_is(s, true, sv), 3);
    cover(1);
}

/// a sorted list of n elements, one of which has a free distance of 0..=3 to its predecessor
fn huge(n: u64, kind: u64, a: u64, least: u64) -> Vec<u64> {
    let mut d = Vec::with_capacity(n as usize);
    let mut x = 1000u64;
    let f = any_bits(2);
    let mut i = 0;
    while i < n {
        d.push(x);
        x += least + gap(kind, i) + if i == a || i == a + 2 { 3 } else { 0 };
        i += 1;
    }
    let b = a as usize;
    d[b + 1] = d[b + 1] - 3 + f;
    d
}
/// the places looked at: next to the free element, the ends, and some in between
fn places(n: u64, a: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (a.saturating_sub(2)..a + 5).map(|x| x as usize).collect();
    v.extend([0, 1, n as usize - 2, n as usize - 1, 65_534, 65_535, 65_536]);
    for j in 1..12 {
        v.push((n * j / 12) as usize);
        v.push((n * j / 12) as usize / 500 * 500 + 30);
        v.push((n * j / 12) as usize / 500 * 500 + 499);
    }
    v.retain(|x| *x < n as usize);
    v.sort_unstable();
    v.dedup();
    v
}
/// params: n, kind, places: storage and searches in a very large vector with one free element
#[no_mangle]
pub fn h_ef_huge() {
    let (n, kind, pl) = (param(0), param(1), param(2));
    let a = choose(0, pl - 1) * (n - 6) / pl + 1;
    fork(true);
    let d = huge(n, kind, a, 0);
    let ef = EliasFanoVec::from_slice(&d);
    check(ef.len() as u64 == n, 11);
    for i in places(n, a) {
        check(opt_is(ef.get(i), true, d[i]), 12);
        let before = if i == 0 { 0 } else { d[i - 1] };
        check(opt_is(ef.delta(i), true, d[i] - before), 13);
        for q in [d[i] - 1, d[i], d[i] + 1, d[i] + 2, d[i] + 1000] {
            queries(&ef, 0, &d, q);
        }
    }
    check(ef.get(n as usize).is_none(), 14);
    cover(3);
}
/// params: n, kind, places: iteration from either end of a very large vector, with jumps
#[no_mangle]
pub fn h_ef_huge_iter() {
    let (n, kind, pl) = (param(0), param(1), param(2));
    let c = choose(0, 4 * pl - 1);
    let a = c / 4 * (n - 6) / pl + 1;
    fork(true);
    let d = huge(n, kind, a, 0);
    let ef = EliasFanoVec::from_slice(&d);
    let n = n as usize;
    let mut it = ef.iter();
    match c % 4 {
        0 => {
            let mut i = 0;
            while i < n {
                check(opt_is(it.next(), true, d[i]), 15);
                i += 1;
            }
        }
        1 => {
            let mut i = n;
            while i > 0 {
                i -= 1;
                check(opt_is(it.next_back(), true, d[i]), 16);
            }
        }
        _ => {
            let (mut i, mut j) = (0, n);
            for s in [0usize, 1, 3, 600, 9000, 20, 30000, 2, 17000, 300, 500, 7] {
                let (x, want) = if (s % 2 == 0) == (c % 4 == 2) {
                    let w = if i + s < j { Some(d[i + s]) } else { None };
                    i = (i + s + 1).min(j);
                    (it.nth(s), w)
                } else {
                    let w = if i + s < j { Some(d[j - 1 - s]) } else { None };
                    j = if i + s < j { j - 1 - s } else { i };
                    (it.nth_back(s), w)
                };
                check(opt_is(x, want.is_some(), want.unwrap_or(0)), 17);
                check(it.len() == j - i, 18);
            }
            if i < j {
                check(opt_is(it.last(), true, d[j - 1]), 19);
            } else {
                check(it.last().is_none(), 20);
            }
            cover(1);
            return;
        }
    }
    check(it.next().is_none() && it.next_back().is_none(), 21);
    cover(1);
}
/// params: n, kind, places: a very long sparse vector with one free one
#[no_mangle]
pub fn h_sp_huge() {
    let (n, kind, pl) = (param(0), param(1), param(2));
    let a = choose(0, pl - 1) * (n - 6) / pl + 1;
    fork(true);
    let d = huge(n, kind, a, 1);
    let len = d[n as usize - 1] + 5;
    let sp = SparseRSVec::new(&d, len);
    for i in places(n, a) {
        check(sp.select1(i) == d[i], 14);
        for q in [d[i] - 1, d[i], d[i] + 1, d[i] + 2, d[i] + 1000] {
            sparse_at(&sp, &d, len, q, true);
        }
    }
    cover(3);
}

/// all answers about position i of a vector of `len` bits whose ones are at the sorted positions d
#[inline(always)]
fn sparse_at(sp: &SparseRSVec, d: &[u64], len: u64, i: u64, full: bool) {
    let n = d.len();
    fork(true);
    let (g, s, r1, r0) = (sp.get(i), sp.is_set(i), sp.rank1(i), sp.rank0(i));
    fork(false);
    check(r1 <= n as u64, 1);
    let r = concretize(r1) as usize;
    if r > 0 {
        check(d[r - 1] < i, 2);
    }
    if r < n {
        check(d[r] >= i, 3);
    }
    let set = r < n && d[r] == i;
    if i >= len {
        check(g.is_none() & s.is_none(), 4);
        check(r0 == len - n as u64, 5);
        cover(1);
    } else {
        check(opt_is(g, true, set as u64), 6);
        check(s == Some(set), 7);
        check(r0 == i.wrapping_sub(r as u64), 8);
        if full {
            check(sp.get_unchecked(i) == set as u64, 9);
            check(sp.is_set_unchecked(i) == set, 10);
        }
        cover(2);
    }
}
#[inline(always)]
fn sparse_all(sp: &SparseRSVec, d: &[u64], len: u64) {
    let n = d.len();
    check(sp.len() == len, 20);
    check(sp.is_empty() == (len == 0), 21);
    for k in 0..n {
        check(sp.select1(k) == d[k], 22);
    }
    let k = any_us();
    assume(k >= n);
    check(sp.select1(k) == len, 23);
    let mut k = 0;
    for x in sp.iter1() {
        check(k < n && x == d[k], 24);
        k += 1;
    }
    check(k == n, 25);
    cover(3);
}
/// 0..=param0 arbitrary positions
#[no_mangle]
pub fn h_sp_list() {
    let c = choose(0, 16 * param(0));
    let n = c.div_ceil(16);
    let bound = if n < 2 { 0 } else { BOUNDS[((c - 1) % 16) as usize].min(u64::MAX - 1) };
    let c = choose(0, 3);
    assume(n == 0 || bound >= n - 1);
    let (z, extra) = [(0, 1), (0, 1000), (5, 1), (u64::MAX - 1 - bound, 1)][c as usize];
    let z = z.min(u64::MAX - 1 - bound);
    let mut d = Vec::with_capacity(n as usize);
    for i in 0..n {
        let x = if i == 0 {
            0
        } else if i == n - 1 {
            bound
        } else {
            let x = any();
            assume((x > d[i as usize - 1] - z) & (x < bound));
            x
        };
        d.push(z.wrapping_add(x));
    }
    let len = if n == 0 { (extra - 1) * 7 } else { (z + bound).saturating_add(extra) };
    fork(true);
    let sp = SparseRSVec::new(&d, len);
    fork(false);
    if choose(0, 1) == 0 {
        sparse_all(&sp, &d, len);
    } else {
        sparse_at(&sp, &d, len, any(), n < 3);
    }
}
/// a bucket of param0 positions sharing their upper bits
#[no_mangle]
pub fn h_sp_bucket() {
    let m = param(0);
    let n = m + 2;
    let log = 64 - (n - 1).leading_zeros() as u64;
    let w = [6, 30][choose(0, 1) as usize];
    let max = (((1u64 << log) - 1) << w) + ((1 << w) - 1);
    let mut d = Vec::with_capacity(n as usize);
    d.push(0);
    let mut last = 0;
    for i in 0..m {
        let x = any_bits(w);
        assume((i == 0) | (x > last));
        last = x;
        d.push((1 << w) | x);
    }
    d.push(max);
    fork(true);
    let sp = SparseRSVec::new(&d, max + 10);
    fork(false);
    sparse_at(&sp, &d, max + 10, (1 << w) | any_bits(w), false);
}
/// built from a BitVec with junk behind the end, directly or inverted; a few free bits
#[no_mangle]
pub fn h_sp_bits() {
    let c = choose(0, 17);
    let len = [0, 1, 2, 63, 64, 65, 100, 127, 128][(c / 2) as usize];
    let inv = c & 1 == 1;
    let kind = [0, 1, 9][choose(0, 2) as usize];
    let mut l = [crate::rsvec::bg(kind, 3), crate::rsvec::bg(kind, 4)];
    // two free bits next to each other
    let at = [0, 1, 40, 63, 64, 98, 99, 126, 127][choose(0, 8) as usize];
    l[at / 64] ^= any_bits(1) << (at % 64);
    l[(at + 1) % 128 / 64] ^= any_bits(1) << ((at + 1) % 64);
    let mut bv = BitVec::from_limbs(&l);
    bv.drop_last(128 - len as usize);
    fork(true);
    let sp = match (inv, len % 3) {
        (true, _) => SparseRSVec::from_bitvec_inverted(&bv),
        (false, 0) => SparseRSVec::from_bitvec(&bv),
        (false, 1) => SparseRSVec::from(&bv),
        _ => SparseRSVec::from(bv),
    };
    fork(false);
    check(sp.len() == len, 1);
    let mut ones = 0u64;
    for i in 0..len {
        let b = ((l[(i / 64) as usize] >> (i % 64)) & 1) ^ inv as u64;
        check(opt_is(sp.get(i), true, b), 2);
        check(sp.rank1(i) == ones, 3);
        check(sp.rank0(i) == i - ones, 4);
        if concretize(b) == 1 {
            check(sp.select1(ones as usize) == i, 5);
        }
        ones += concretize(b);
    }
    let q = any();
    assume(q >= len);
    check(sp.get(q).is_none(), 6);
    check(sp.rank1(q) == ones, 7);
    check(sp.rank0(q) == len - ones, 8);
    check(sp.select1(ones as usize) == len, 9);
    cover(1);
}
/// positions of a large vector around a free one (params: ones, kind, places)
#[no_mangle]
pub fn h_sp_large() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let a = choose(0, places - 1) * (n - 4) / places + 1;
    let mut d = Vec::with_capacity(n as usize);
    let mut x = 7u64;
    for i in 0..n {
        d.push(x);
        x += 2 + gap(kind, i);
    }
    let y = any();
    assume((y > d[a as usize - 1]) & (y < d[a as usize + 1]));
    d[a as usize] = y;
    let len = x + 5;
    fork(true);
    let sp = SparseRSVec::new(&d, len);
    fork(false);
    let k = choose(0, 8);
    let (lo, hi) = if k == 8 { (a - 1, a + 1) } else { (k * (n - 2) / 8, k * (n - 2) / 8 + 1) };
    let i = any();
    assume((i >= d[lo as usize]) & (i <= d[hi as usize]));
    sparse_at(&sp, &d, len, i, false);
    check(sp.select1(a as usize) == d[a as usize], 11);
}
/// params: words, background, places: a long BitVec, directly and inverted, two free bits
#[no_mangle]
pub fn h_sp_bits_long() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, 2 * places - 1);
    let (inv, c) = (c & 1 == 1, c / 2);
    let cut = [0, 1, 37][(c % 3) as usize];
    let mut l: Vec<u64> = (0..n).map(|i| crate::rsvec::bg(kind, i)).collect();
    let at = ((n - 2) * c / places) as usize;
    fork(true);
    l[at] ^= any_bits(1) << 63;
    l[at + 1] ^= any_bits(1);
    let len = 64 * n - cut;
    let mut bv = BitVec::from_limbs(&l);
    bv.drop_last(cut as usize);
    let sp = match (inv, c % 3) {
        (true, _) => SparseRSVec::from_bitvec_inverted(&bv),
        (false, 0) => SparseRSVec::from_bitvec(&bv),
        (false, 1) => SparseRSVec::from(&bv),
        _ => SparseRSVec::from(bv),
    };
    check(sp.len() == len, 1);
    let b = |i: u64| ((l[(i / 64) as usize] >> (i % 64)) & 1) ^ inv as u64;
    let mut ones = 0u64;
    let mut i = 0;
    let step = (n / 60).max(1);
    for w in 0..n {
        if w % step == 0 || w + 2 >= n || w.abs_diff(at as u64) < 3 {
            let mut r = ones;
            for j in 0..64.min(len - 64 * w) {
                let p = 64 * w + j;
                let x = concretize(b(p));
                if j < 3 || j > 61 || p + 3 > len || j == 30 {
                    check(opt_is(sp.get(p), true, x), 2);
                    check(sp.rank1(p) == r && sp.rank0(p) == p - r, 3);
                    check(x == 0 || sp.select1(r as usize) == p, 4);
                }
                r += x;
            }
        }
        while i < 64 * (w + 1) && i < len {
            ones += concretize(b(i));
            i += 1;
        }
    }
    check(sp.rank1(len) == ones && sp.rank0(len) == len - ones, 5);
    check(sp.select1(ones as usize) == len && sp.get(len).is_none(), 6);
    let mut k = 0;
    for p in sp.iter1() {
        check(p < len && b(p) == 1, 7);
        k += 1;
    }
    check(k == ones, 8);
    cover(1);
}
