//! Range minimum structures.
use crate::sym::*;
use std::ops::Bound;
use vers_vecs::{BinaryRmq, FastRmq};

pub const ALL: &[(&str, fn())] = &[
    ("h_rmq_bin", h_rmq_bin),
    ("h_rmq_fast", h_rmq_fast),
    ("h_rmq_bin_huge", h_rmq_bin_huge),
    ("h_rmq_fast_huge", h_rmq_fast_huge),
    ("h_rmq_bin_large", h_rmq_bin_large),
    ("h_rmq_fast_large", h_rmq_fast_large),
    ("h_rmq_bin_range", h_rmq_bin_range),
    ("h_rmq_fast_range", h_rmq_fast_range),
];

/// what the checks need from both structures
trait Rmq: Sized {
    fn make(v: Vec<u64>) -> Self;
    fn make2(v: Vec<u64>, how: u64) -> Self;
    fn min(&self, i: usize, j: usize) -> usize;
    fn min_range(&self, r: (Bound<usize>, Bound<usize>)) -> usize;
    fn min_std(&self, kind: u64, i: usize, j: usize) -> usize;
    fn at(&self, i: usize) -> u64;
    fn size(&self) -> usize;
}
macro_rules! rmq {
    ($t:ty) => {
        impl Rmq for $t {
            #[inline(never)]
            fn make(v: Vec<u64>) -> Self {
                <$t>::from_vec(v)
            }
            fn make2(v: Vec<u64>, how: u64) -> Self {
                match how {
                    0 => <$t>::from(v),
                    1 => v.into_iter().collect(),
                    _ => <$t>::from_vec(v),
                }
            }
            #[inline(never)]
            fn min(&self, i: usize, j: usize) -> usize {
                self.range_min(i, j)
            }
            fn min_range(&self, r: (Bound<usize>, Bound<usize>)) -> usize {
                self.range_min_with_range(r)
            }
            fn min_std(&self, kind: u64, i: usize, j: usize) -> usize {
                match kind {
                    0 => self.range_min_with_range(i..j),
                    1 => self.range_min_with_range(i..=j),
                    2 => self.range_min_with_range(i..),
                    3 => self.range_min_with_range(..j),
                    4 => self.range_min_with_range(..=j),
                    _ => self.range_min_with_range(..),
                }
            }
            fn at(&self, i: usize) -> u64 {
                self[i]
            }
            fn size(&self) -> usize {
                self.len()
            }
        }
    };
}
rmq!(BinaryRmq);
rmq!(FastRmq);

/// r is a minimum of d[i..=j]
#[inline(always)]
fn is_min(d: &[u64], i: usize, j: usize, r: usize) {
    check((r >= i) & (r <= j), 1);
    let r = concretize(r as u64) as usize;
    let mut ok = true;
    for k in i..=j {
        ok &= d[r] <= d[k];
    }
    check(ok, 2);
}
#[inline(always)]
fn small<T: Rmq>() {
    let n = choose(0, param(0));
    let mut d = Vec::with_capacity(n as usize);
    for _ in 0..n {
        d.push(any());
    }
    fork(true);
    let r = T::make(d.clone());
    check(r.size() as u64 == n, 3);
    for i in 0..n as usize {
        check(r.at(i) == d[i], 4);
        for j in i..n as usize {
            let x = r.min(i, j);
            is_min(&d, i, j, x);
        }
    }
    cover(1);
}
/// 0..=param0 arbitrary numbers, every range
#[no_mangle]
pub fn h_rmq_bin() {
    small::<BinaryRmq>();
}
#[no_mangle]
pub fn h_rmq_fast() {
    small::<FastRmq>();
}
#[inline(always)]
fn value(kind: u64, i: u64) -> u64 {
    match kind {
        0 => 10 + 2 * i,
        1 => 1_000_000 - 2 * i,
        2 => 50,
        3 => 10 + (i % 3) * 20,
        // the minimum of every block of 128 at its very end / its very beginning
        4 => 1000 - i % 128,
        5 => 1000 + i % 128,
        _ => crate::rsvec::bg(9, i) >> 50,
    }
}
/// params: length, kind of background, places; two free values at a chosen place
#[inline(always)]
fn large<T: Rmq>() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, places - 1);
    let mut d = Vec::with_capacity(n as usize);
    for i in 0..n {
        d.push(value(kind, i));
    }
    // near a border of blocks, in the middle, at the end
    let a = (n * c / places) as usize;
    let a = match c % 3 {
        0 => a / 128 * 128,
        1 => (a / 128 * 128 + 127).min(n as usize - 1),
        _ => a,
    };
    let b = ((a + [1, 128, 64][(c / 3 % 3) as usize]) % n as usize).min(n as usize - 1);
    d[a] = any();
    d[b] = any();
    fork(true);
    let r = T::make(d.clone());
    let lo = [0, a.saturating_sub(1), a, a + 1, b.saturating_sub(1), b, b + 1, 64, 127, 128, 129, 255, 256, n as usize - 1];
    let hi = [0, a.saturating_sub(1), a, a + 1, b.saturating_sub(1), b, b + 1, 64, 127, 128, 255, 256, 383, n as usize - 1];
    for &i in lo.iter() {
        for &j in hi.iter() {
            if i <= j && j < n as usize {
                let x = r.min(i, j);
                check((x >= i) & (x <= j), 5);
                let x = concretize(x as u64) as usize;
                // the background on its own, then the free values
                let mut m = u64::MAX;
                for k in i..=j {
                    if k != a && k != b {
                        m = m.min(d[k]);
                    }
                }
                check(d[x] <= m, 6);
                check(!(i <= a && a <= j) || d[x] <= d[a], 7);
                check(!(i <= b && b <= j) || d[x] <= d[b], 8);
            }
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_rmq_bin_large() {
    large::<BinaryRmq>();
}
#[no_mangle]
pub fn h_rmq_fast_large() {
    large::<FastRmq>();
}
/// params: length, kind of background, places; one value that is small or not
#[inline(always)]
fn huge<T: Rmq>() {
    let (n, kind, places) = (param(0), param(1), param(2));
    let c = choose(0, places - 1);
    let mut d = Vec::with_capacity(n as usize);
    for i in 0..n {
        d.push(value(kind, i));
    }
    let n = n as usize;
    let a = [n - 1, n / 2, 0, n / 3, 65_536.min(n - 1), 1][c as usize % 6];
    let v = any();
    assume((v == 0) | (v == 1 << 60));
    d[a] = v;
    fork(true);
    let r = T::make(d.clone());
    let ends = [0, a.saturating_sub(1), a, (a + 1).min(n - 1), 65_535.min(n - 1), 65_536.min(n - 1), n / 2, n - 1];
    for &i in ends.iter() {
        for &j in ends.iter() {
            if i <= j {
                let x = r.min(i, j);
                check((x >= i) & (x <= j), 5);
                let x = concretize(x as u64) as usize;
                let mut m = u64::MAX;
                for k in i..=j {
                    if k != a {
                        m = m.min(d[k]);
                    }
                }
                check(d[x] <= m, 6);
                check(!(i <= a && a <= j) || d[x] <= d[a], 7);
            }
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_rmq_bin_huge() {
    huge::<BinaryRmq>();
}
#[no_mangle]
pub fn h_rmq_fast_huge() {
    huge::<FastRmq>();
}
/// every kind of range expression with arbitrary bounds
#[inline(always)]
fn ranges<T: Rmq>() {
    let c = choose(0, 9);
    let n = [1, 2, 3, 130][choose(0, 3) as usize];
    let mut d = Vec::with_capacity(n as usize);
    for i in 0..n {
        d.push(if n < 4 { any() } else { value(9, i) });
    }
    fork(true);
    let r = T::make2(d.clone(), c % 3);
    fork(false);
    let (i, j) = (any(), any());
    // large vectors: bounds near the ends and the block border
    let (i, j) = if n < 4 { (i, j) } else { ([0, 1, 126, 127, 128, 129][choose(0, 5) as usize], [126, 127, 128, 129, 130, 131, u64::MAX][choose(0, 6) as usize]) };
    let (iu, ju) = (i as usize, j as usize);
    fork(true);
    let x = match c {
        0 => r.min_std(0, iu, ju),
        1 => r.min_std(1, iu, ju),
        2 => r.min_std(2, iu, ju),
        3 => r.min_std(3, iu, ju),
        4 => r.min_std(4, iu, ju),
        5 => r.min_std(5, iu, ju),
        6 => r.min_range((Bound::Excluded(iu), Bound::Included(ju))),
        7 => r.min_range((Bound::Excluded(iu), Bound::Excluded(ju))),
        8 => r.min_range((Bound::Excluded(iu), Bound::Unbounded)),
        _ => r.min_range((Bound::Included(iu), Bound::Included(ju))),
    } as u64;
    // the range it stands for, limited to the data; nothing to demand of ranges that are empty then
    let (has_lo, ex_lo) = (matches!(c, 0 | 1 | 2 | 6 | 7 | 8 | 9), matches!(c, 6 | 7 | 8));
    let (has_hi, ex_hi) = (matches!(c, 0 | 1 | 3 | 4 | 6 | 7 | 9), matches!(c, 0 | 3 | 7));
    let lo = if !has_lo { 0 } else { i };
    let hi = if !has_hi { n - 1 } else { j };
    if (ex_lo && lo >= n) || lo > n || (ex_hi && hi == 0) {
        return;
    }
    let lo = concretize(if ex_lo { lo + 1 } else { lo });
    let hi = if ex_hi { hi - 1 } else { hi };
    let hi = concretize(if hi > n - 1 { n - 1 } else { hi });
    if lo > hi {
        return;
    }
    is_min(&d, lo as usize, hi as usize, x as usize);
    cover(1);
}
#[no_mangle]
pub fn h_rmq_bin_range() {
    ranges::<BinaryRmq>();
}
#[no_mangle]
pub fn h_rmq_fast_range() {
    ranges::<FastRmq>();
}
