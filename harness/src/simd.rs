//! Code that only exists in the simd build.
use crate::rsvec::bg;
use crate::sym::*;
use vers_vecs::{BitVec, RsVec};

pub const ALL: &[(&str, fn())] = &[("h_bs_small", h_bs_small), ("h_bs_words", h_bs_words), ("h_bs_big", h_bs_big)];

fn ones<'a>(r: &'a RsVec, zero: bool) -> Box<dyn Iterator<Item = usize> + 'a> {
    if zero {
        Box::new(r.bit_set_iter0())
    } else {
        Box::new(r.bit_set_iter1())
    }
}
fn all(r: &RsVec, bits: &[bool], zero: bool) {
    let mut it = ones(r, zero);
    for i in 0..bits.len() {
        if bits[i] != zero {
            check(it.next() == Some(i), 1);
        }
    }
    check(it.next().is_none(), 2);
    check(it.next().is_none(), 3);
}
/// param: N. Every vector of 0..=N bits
#[no_mangle]
pub fn h_bs_small() {
    let c = choose(0, 2 * param(0) + 1);
    let n = c / 2;
    fork(true);
    let mut v = BitVec::new();
    let mut b = vec![];
    for _ in 0..n {
        let x = any_bits(1);
        v.append_bit(x);
        b.push(x == 1);
    }
    all(&v.into(), &b, c % 2 == 1);
    cover(1);
}
/// params: background, number of free bits: vectors of 0..=130 bits, junk behind the end, free bits around the end
#[no_mangle]
pub fn h_bs_words() {
    let (kind, k) = (param(0), param(1));
    let c = choose(0, 2 * 131 - 1);
    let n = (c / 2) as usize;
    fork(true);
    let mut w = [bg(kind, 1), bg(kind, 2), bg(kind, 3)];
    let f = any_bits(2 * k);
    for j in 0..2 * k as usize {
        let p = (n + 192 - k as usize + j) % 192;
        w[p / 64] = (w[p / 64] & !(1 << (p % 64))) | (((f >> j) & 1) << (p % 64));
    }
    let mut v = BitVec::from_limbs(&w);
    v.drop_last(192 - n);
    let b: Vec<bool> = (0..n).map(|i| (w[i / 64] >> (i % 64)) & 1 == 1).collect();
    all(&v.into(), &b, c % 2 == 1);
    cover(1);
}
/// params: words, background: all positions of a long vector with free bits at a chunk border
#[no_mangle]
pub fn h_bs_big() {
    let (n, kind) = (param(0) as usize, param(1));
    let c = choose(0, 7);
    fork(true);
    let mut w: Vec<u64> = (0..n as u64).map(|i| bg(kind, i)).collect();
    let at = [0, 1, n / 2, n - 1][(c / 2) as usize];
    let f = any_bits(4);
    w[at] = (w[at] & !(0xf << 14)) | (f << 14);
    let b: Vec<bool> = (0..64 * n - 3).map(|i| (w[i / 64] >> (i % 64)) & 1 == 1).collect();
    let mut v = BitVec::from_limbs(&w);
    v.drop_last(3);
    all(&v.into(), &b, c % 2 == 1);
    cover(1);
}
