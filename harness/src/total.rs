//! Checked queries: no panic, no overflow, and the documented answer outside the structure, for every
//! argument. What they answer inside the structure is asserted elsewhere.
use crate::sym::*;
use vers_vecs::trees::bp::BpTree;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
use vers_vecs::{BitVec, EliasFanoVec, RsVec, SparseRSVec, WaveletMatrix};

pub const ALL: &[(&str, fn())] = &[
    ("h_tot_bv", h_tot_bv),
    ("h_tot_mask", h_tot_mask),
    ("h_tot_rs", h_tot_rs),
    ("h_tot_ef", h_tot_ef),
    ("h_tot_sp", h_tot_sp),
    ("h_tot_wm", h_tot_wm),
    ("h_tot_wm_bits", h_tot_wm_bits),
    ("h_tot_bp", h_tot_bp),
    ("h_tot_it", h_tot_it),
];

const LENS: [u64; 8] = [0, 1, 5, 63, 64, 65, 128, 130];

fn vec_of(len: u64) -> BitVec {
    let n = len.div_ceil(64);
    let l: Vec<u64> = (0..n).map(|_| any()).collect();
    let mut v = BitVec::from_limbs(&l);
    v.drop_last((64 * n - len) as usize);
    v
}
fn inside(pos: usize, len: usize, n: u64) -> bool {
    len <= 64 && pos as u64 <= n && len as u64 <= n - (pos as u64).min(n)
}

#[no_mangle]
pub fn h_tot_bv() {
    let c = choose(0, 8 * 11 - 1);
    let n = LENS[(c % 8) as usize];
    let mut v = vec_of(n);
    let (i, j) = (any_us(), any_us());
    let x = any();
    match c / 8 {
        0 => check(v.get(i).is_some() == ((i as u64) < n), 1),
        1 => check(v.is_bit_set(i).is_some() == ((i as u64) < n), 2),
        2 => check(j == 0 || v.get_bits(i, j).is_some() == inside(i, j, n), 3),
        3 => {
            let want = j <= 64 && (i as u64).checked_mul(j as u64).is_some_and(|p| inside(p as usize, j, n));
            check(j == 0 || v.unpack_element(i, j).is_some() == want, 4);
        }
        4 => check(v.set(i, x).is_ok() == ((i as u64) < n), 5),
        5 => {
            // dropping more than there is empties the vector
            v.drop_last(i);
            check(v.len() as u64 == n - (i as u64).min(n), 6);
            v.append(true);
            check(v.get(v.len() - 1) == Some(1), 7);
        }
        6 => match v.split_at(i) {
            Ok((a, b)) => check(i as u64 <= n && a.len() == i && b.len() as u64 == n - i as u64, 8),
            Err(o) => check(i as u64 > n && o.len() as u64 == n, 9),
        },
        7 => {
            let o = BitVec::from_zeros(choose(0, 130) as usize);
            let same = o.len() as u64 == n;
            check(v.mask_and(&o).is_ok() == same, 10);
            check(v.mask_or(&o).is_ok() == same, 11);
            check(v.mask_xor(&o).is_ok() == same, 12);
            check(v.mask_custom(&o, |a, _| a).is_ok() == same, 13);
            check(v.apply_mask_and(&o).is_ok() == same, 14);
            check(v.apply_mask_or(&o).is_ok() == same, 15);
            check(v.apply_mask_xor(&o).is_ok() == same, 16);
            check(v.apply_mask_custom(&o, |a, _| a).is_ok() == same, 17);
            check(v.len() as u64 == n, 18);
        }
        8 => {
            check(v.count_ones() + v.count_zeros() == n, 19);
            check(v.is_empty() == (n == 0), 20);
            check(v.heap_size() < 1 << 20, 21);
        }
        9 => {
            let o = vec_of(n);
            let u = v.clone();
            check(u == v, 22);
            v.extend_bitvec(&o);
            check(v.len() as u64 == 2 * n, 23);
        }
        _ => {
            let w = [1usize, 2, 7, 8, 32, 63, 64, 65, 200][choose(0, 8) as usize];
            let p = BitVec::pack_sequence_u64(&[x, x, x], w);
            check(p.len() == 3 * w, 24);
            check(p.unpack_element(i, w).is_some() == (i < 3 && w <= 64), 25);
            let p = BitVec::pack_sequence_u8(&[x as u8], w);
            check(p.len() == w, 26);
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_tot_mask() {
    let c = choose(0, 8 * 4 - 1);
    let n = LENS[(c % 8) as usize];
    let (v, o) = (vec_of(n), vec_of(n));
    let (i, j) = (any_us(), any_us());
    let m = match c / 8 {
        0 => v.mask_and(&o),
        1 => v.mask_or(&o),
        2 => v.mask_xor(&o),
        _ => {
            let m = v.mask_custom(&o, |a, b| !(a & b)).unwrap();
            check(m.get(i).is_some() == ((i as u64) < n), 1);
            check(m.is_bit_set(i).is_some() == ((i as u64) < n), 2);
            check(j == 0 || m.get_bits(i, j).is_some() == inside(i, j, n), 3);
            check(m.count_ones() + m.count_zeros() == n, 4);
            check(m.to_bit_vec().len() as u64 == n, 5);
            cover(1);
            return;
        }
    }
    .unwrap();
    check(m.get(i).is_some() == ((i as u64) < n), 6);
    check(m.is_bit_set(i).is_some() == ((i as u64) < n), 7);
    check(j == 0 || m.get_bits(i, j).is_some() == inside(i, j, n), 8);
    check(m.count_ones() + m.count_zeros() == n, 9);
    check(m.to_bit_vec().len() as u64 == n, 10);
    cover(1);
}
/// lengths up to several super-blocks, one free word at the end, all arguments beyond what is there
#[no_mangle]
pub fn h_tot_rs() {
    let c = choose(0, 12 * 6 - 1);
    let n = [0u64, 1, 64, 65, 511, 512, 513, 1024, 8191, 8192, 8193, 20000][(c % 12) as usize];
    fork(true);
    let words = n.div_ceil(64);
    let mut l: Vec<u64> = (0..words).map(|i| crate::rsvec::bg(9, i)).collect();
    let free = any_bits(3);
    if words > 0 {
        l[words as usize - 1] ^= free;
    }
    let mut v = BitVec::from_limbs(&l);
    v.drop_last((64 * words - n) as usize);
    let ones = v.count_ones() as usize;
    let r = RsVec::from_bit_vec(v);
    let n = n as usize;
    let zeros = n - ones;
    let (i, j) = (any_us(), any_us());
    match c / 12 {
        0 => {
            assume(i >= n);
            check(r.rank1(i) == ones && r.rank0(i) == zeros, 1);
            check(r.get(i).is_none(), 2);
        }
        1 => {
            assume(i >= ones);
            check(r.select1(i) == n, 3);
        }
        2 => {
            assume(i >= zeros);
            check(r.select0(i) == n, 4);
        }
        3 => {
            assume(!inside(i, j, n as u64));
            check(r.get_bits(i, j).is_none(), 5);
        }
        4 => {
            check(r.iter0().len() == zeros && r.iter1().len() == ones, 6);
            assume(i >= ones);
            let mut it = r.iter1();
            check(it.nth(i).is_none(), 7);
            check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 8);
            let mut it = r.iter1();
            check(it.nth_back(i).is_none(), 9);
            check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 10);
        }
        _ => {
            assume(i >= zeros);
            let mut it = r.iter0();
            check(it.nth(i).is_none(), 11);
            check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 12);
            let mut it = r.iter0();
            check(it.nth_back(i).is_none(), 13);
            check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, 14);
            check(r.heap_size() < 1 << 20 && r.is_empty() == (n == 0), 15);
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_tot_ef() {
    let c = choose(0, 6 * 6 - 1);
    let n = (c % 6) as usize;
    fork(true);
    // single elements, equal elements, the ends of the value range, clusters far apart
    let d: Vec<u64> = match n {
        0 => vec![],
        1 => vec![any()],
        2 => vec![u64::MAX - any_bits(1), u64::MAX],
        3 => vec![0, any_bits(2), u64::MAX],
        4 => vec![5; 40],
        _ => (0..70).map(|i| i * 3 + ((i / 35) << 40)).collect(),
    };
    let e = EliasFanoVec::from_slice(&d);
    let n = d.len();
    let i = any_us();
    let q = any();
    match c / 6 {
        0 => {
            check(e.len() == n && e.is_empty() == (n == 0), 1);
            assume(i >= n);
            check(e.get(i).is_none() && e.select(i).is_none() && e.delta(i).is_none(), 2);
        }
        1 => {
            let p = e.predecessor(q);
            check(p.is_some() == (n > 0 && d[0] <= q), 3);
            check(!p.is_some_and(|p| p > q), 4);
        }
        2 => {
            let p = e.successor(q);
            check(p.is_some() == (n > 0 && d[n - 1] >= q), 5);
            check(!p.is_some_and(|p| p < q), 6);
        }
        3 => {
            let r = e.rank(q);
            check(r <= n as u64, 7);
            check(n == 0 || (q > d[0] || r == 0) && (q <= d[n - 1] || r == n as u64), 8);
        }
        4 => {
            assume(i >= n);
            let mut it = e.iter();
            check(it.nth(i).is_none() && it.next().is_none() && it.next_back().is_none(), 9);
            let mut it = e.iter();
            check(it.nth_back(i).is_none() && it.next().is_none() && it.next_back().is_none(), 10);
        }
        _ => {
            check(e.heap_size() < 1 << 20, 11);
            let mut last = 0;
            for k in 0..n {
                check(e.delta(k) == Some(d[k] - last), 12);
                last = d[k];
            }
        }
    }
    cover(1);
}
#[no_mangle]
pub fn h_tot_sp() {
    let c = choose(0, 5 * 5 - 1);
    fork(true);
    let (d, len): (Vec<u64>, u64) = match c % 5 {
        0 => (vec![], any()),
        1 => (vec![0], { let l = any(); assume(l > 0); l }),
        2 => (vec![7, 9], u64::MAX),
        3 => ((0..60).map(|i| i * 5).collect(), 300),
        _ => (vec![u64::MAX - 1], u64::MAX),
    };
    let s = SparseRSVec::new(&d, len);
    let ones = d.len() as u64;
    let q = any();
    match c / 5 {
        0 => {
            check(s.is_set(q).is_some() == (q < len), 1);
            check(s.get(q).is_some() == (q < len), 2);
        }
        1 => {
            let r = s.rank1(q);
            check(r <= ones && (q < len || r == ones), 3);
        }
        2 => {
            let r = s.rank0(q);
            check(r <= len - ones && (q < len || r == len - ones), 4);
        }
        3 => {
            assume(q >= ones);
            check(s.select1(q as usize) == len, 5);
            let mut it = s.iter1();
            check(it.nth(q as usize).is_none() && it.next().is_none(), 6);
        }
        _ => {
            check(s.len() == len && s.is_empty() == (len == 0), 7);
            check(s.heap_size() < 1 << 20, 8);
        }
    }
    cover(1);
}
fn matrix(c: u64) -> (WaveletMatrix, usize, u64) {
    // (elements, width)
    let (n, w) = [(0usize, 3u64), (1, 1), (1, 3), (3, 2), (1, 64), (2, 63)][c as usize];
    let d: Vec<u64> = (0..n as u64).map(|i| if i == 1 { any_bits(2) } else { i.wrapping_mul(0x9E37_79B9_7F4A_7C15) } & low(w)).collect();
    let m = WaveletMatrix::from_slice(&d, w as u16);
    (m, n, w)
}
/// the functions for symbols up to 64 bits; ranges are arbitrary pairs, reversed ones included
#[no_mangle]
pub fn h_tot_wm() {
    let c = choose(0, 6 * 10 - 1);
    fork(true);
    let (m, n, w) = matrix(c % 6);
    let (i, j, k) = (any_us(), any_us(), any_us());
    // the free bits of a symbol at its lower end
    let s = any_bits(w.min(3)) | ((0x9E37_79B9_7F4A_7C15 & low(w)) & !7);
    let range = i < j && j <= n;
    let lazy = (i == j) && i <= n; // empty ranges
    match c / 6 {
        0 => check(m.get_u64(i).is_some() == (i < n), 1),
        1 => check(m.get_sorted_u64(i).is_some() == (i < n), 2),
        2 => check(m.rank_u64(i, s).is_some() == (i <= n), 3),
        3 => {
            let r = m.rank_range_u64(i..j, s);
            check(r.is_some() == range || lazy, 4);
            check(!r.is_some_and(|r| r > n), 5);
        }
        4 => {
            let r = m.rank_offset_u64(i, j, s);
            check(r.is_some() == range || lazy, 6);
            check(!r.is_some_and(|r| r > n), 7);
        }
        5 => {
            let r = m.select_u64(k, s);
            check(!r.is_some_and(|r| r >= n || k >= n), 8);
        }
        6 => {
            let r = m.select_offset_u64(i, k, s);
            check(!r.is_some_and(|r| r >= n || k >= n || i >= n || r < i), 9);
        }
        7 => check(m.quantile_u64(i..j, k).is_some() == (range && k < j - i), 10),
        8 => {
            check(m.range_min_u64(i..j).is_some() == range, 11);
            check(m.range_max_u64(i..j).is_some() == range, 12);
            check(m.range_median_u64(i..j).is_some() == range, 13);
        }
        _ => {
            let (p, q) = (m.predecessor_u64(i..j, s), m.successor_u64(i..j, s));
            check(!(p.is_some() || q.is_some()) || range, 14);
            check(!range || p.is_some() || q.is_some(), 15);
            check(!p.is_some_and(|p| p > s) && !q.is_some_and(|q| q < s), 16);
        }
    }
    cover(1);
}
/// the functions for symbols of any width, and the u64 functions on wider matrices
#[no_mangle]
pub fn h_tot_wm_bits() {
    let c = choose(0, 4 * 11 - 1);
    fork(true);
    let (m, n, w) = match c % 4 {
        0 => matrix(0),
        1 => matrix(3),
        2 => {
            let b = BitVec::from_limbs(&[any_bits(2), 5 << 20]);
            let mut b = b;
            b.drop_last(128 - 2 * 50);
            (WaveletMatrix::from_bit_vec(&b, 50), 2, 50)
        }
        _ => {
            let mut b = BitVec::from_limbs(&[any_bits(1), 1 << 6, 77]);
            b.drop_last(192 - 2 * 70);
            (WaveletMatrix::from_bit_vec(&b, 70), 2, 70)
        }
    };
    let (i, j, k) = (any_us(), any_us(), any_us());
    let s = BitVec::from_limbs(&[any_bits(1), 0]);
    let mut s = s;
    // symbols of other widths are no symbols of the matrix
    let sw = match choose(0, 2) {
        0 => w,
        1 => w - 1,
        _ => w + 1,
    };
    s.drop_last(128 - sw as usize);
    let sym = sw == w;
    let range = i < j && j <= n;
    let lazy = i == j && i <= n;
    match c / 4 {
        0 => check(m.get_value(i).is_some() == (i < n) && m.get_sorted(i).is_some() == (i < n), 1),
        1 => check(m.rank(i, &s).is_some() == (i <= n && sym), 2),
        2 => {
            let r = m.rank_range(i..j, &s);
            check(r.is_some() == (range && sym) || (lazy && sym), 3);
        }
        3 => {
            let r = m.rank_offset(i, j, &s);
            check(r.is_some() == (range && sym) || (lazy && sym), 4);
        }
        4 => check(!m.select(k, &s).is_some_and(|r| r >= n || k >= n || !sym), 5),
        5 => check(!m.select_offset(i, k, &s).is_some_and(|r| r >= n || k >= n || i >= n || r < i || !sym), 6),
        6 => check(m.quantile(i..j, k).is_some() == (range && k < j - i), 7),
        7 => {
            check(m.range_min(i..j).is_some() == range, 8);
            check(m.range_max(i..j).is_some() == range, 9);
            check(m.range_median(i..j).is_some() == range, 10);
        }
        8 => {
            let (p, q) = (m.predecessor(i..j, &s), m.successor(i..j, &s));
            check(!(p.is_some() || q.is_some()) || (range && sym), 11);
            check(!(range && sym) || p.is_some() || q.is_some(), 12);
        }
        9 => {
            // numbers cannot hold wider symbols
            let wide = w > 64;
            let ok = range && !wide;
            check(m.get_u64(i).is_some() == (i < n && !wide), 13);
            check(m.get_sorted_u64(i).is_some() == (i < n && !wide), 14);
            check(m.rank_u64(i, 1).is_some() == (i <= n && !wide), 15);
            check(m.rank_range_u64(i..j, 1).is_some() == ok || (lazy && !wide), 16);
            check(m.rank_offset_u64(i, j, 1).is_some() == ok || (lazy && !wide), 17);
            check(m.select_u64(k, 1).is_none() || !wide, 18);
            check(m.select_offset_u64(i, k, 1).is_none() || !wide, 19);
            check(m.range_min_u64(i..j).is_some() == ok, 20);
            check(m.range_max_u64(i..j).is_some() == ok, 21);
            check(m.range_median_u64(i..j).is_some() == ok, 22);
            check(m.quantile_u64(i..j, k).is_some() == (ok && k < j - i), 23);
            check((m.predecessor_u64(i..j, 1).is_some() || m.successor_u64(i..j, 1).is_some()) == ok, 24);
        }
        _ => {
            let wide = w > 64;
            check(m.iter_u64().is_none() == wide && m.iter_sorted_u64().is_none() == wide, 25);
            check(m.len() == n && m.is_empty() == (n == 0) && m.bits_per_element() as u64 == w, 26);
            check(m.heap_size() < 1 << 20, 27);
            let mut it = m.iter();
            assume(i >= n);
            check(it.nth(i).is_none() && it.next().is_none(), 28);
            let mut it = m.iter_sorted();
            check(it.nth(i).is_none() && it.next_back().is_none(), 29);
            check(m.clone().into_iter_u64().is_none() == wide && m.into_iter_sorted_u64().is_none() == wide, 30);
        }
    }
    cover(1);
}
fn bp<const B: usize>(c: u64) {
    let k = c % 5;
    let mut v = BitVec::new();
    match k {
        0 => {}
        1..=3 => {
            // every sequence of 1, 3 or 4 parentheses, unbalanced ones included
            for _ in 0..[1, 3, 4][k as usize - 1] {
                v.append_bit(any_bits(1));
            }
        }
        _ => {
            for i in 0..40u64 {
                v.append(i < 20);
            }
        }
    }
    let n = v.len();
    let opens = v.count_ones() as usize;
    let total = opens as i64 - (n - opens) as i64;
    let t = BpTree::<B>::from_bit_vector(v);
    let (i, r) = (any_us(), any() as i64);
    match c / 5 {
        0 => {
            let f = t.fwd_search(i, r);
            check(!f.is_some_and(|f| f >= n || i >= n || f <= i), 1);
        }
        1 => {
            let f = t.bwd_search(i, r);
            check(!f.is_some_and(|f| f >= n || i >= n || f >= i), 2);
        }
        2 => {
            let (a, b, e) = (t.close(i), t.open(i), t.enclose(i));
            check(!a.is_some_and(|f| f >= n || f <= i), 3);
            check(!b.is_some_and(|f| f >= n || f >= i), 4);
            check(!e.is_some_and(|f| f >= n || f >= i), 5);
            check(i < n || (a.is_none() && b.is_none() && e.is_none()), 6);
        }
        3 => {
            let e = t.excess(i);
            check(i < n || e == total, 7);
            check(e.unsigned_abs() as usize <= n, 8);
        }
        4 => {
            let l = any();
            check(!t.level_leftmost(l).is_some_and(|x| x >= n), 9);
            check(!t.level_rightmost(l).is_some_and(|x| x >= n), 10);
        }
        5 => {
            // navigation from every node, whether the sequence is balanced or not
            let w = t.clone().into_parentheses_vec();
            let h = choose(0, n.max(1) as u64 - 1) as usize;
            if concretize(w.get(h).unwrap_or(0)) == 1 {
                let below = |x: Option<usize>| !x.is_some_and(|x| x >= n);
                check(below(t.parent(h)) & below(t.first_child(h)) & below(t.last_child(h)), 21);
                check(below(t.next_sibling(h)) & below(t.previous_sibling(h)), 22);
                check(below(t.level_next(h)) & below(t.level_prev(h)), 23);
                check(t.depth(h) <= n as u64 && t.node_index(h) < opens && !(t.is_leaf(h) && t.first_child(h).is_some()), 24);
                check(!t.subtree_size(h).is_some_and(|x| x > opens), 25);
                let g = choose(0, n as u64 - 1) as usize;
                if concretize(w.get_unchecked(g)) == 1 {
                    check(t.is_ancestor(h, g).is_some() == t.close(h).is_some(), 26);
                }
            }
            if h == 0 {
                check(t.node_handle(i) <= n && (i < opens || t.node_handle(i) == n), 27);
            } else if h == n - 1 && w.get(h) == Some(1) {
                check(!t.level_ancestor(h, r as u64).is_some_and(|x| x >= n), 28);
            }
        }
        _ => {
            // (what a sequence of closing parentheses only is, is not defined)
            check(t.size() == opens && (t.is_empty() == (opens == 0) || (opens == 0 && n > 0)), 11);
            check(t.heap_size() < 1 << 20, 12);
            if opens == 20 {
                let node = choose(0, 19) as usize;
                let l = any();
                let a = t.level_ancestor(node, l);
                check(a == if l <= node as u64 { Some(node - l as usize) } else { None }, 13);
            }
            let mut x = t.dfs_iter();
            assume(i >= opens);
            check(x.nth(i).is_none(), 14);
        }
    }
    cover(1);
}
/// param: block size
#[no_mangle]
pub fn h_tot_bp() {
    let c = choose(0, 5 * 7 - 1);
    fork(true);
    match param(0) {
        1 => bp::<1>(c),
        2 => bp::<2>(c),
        8 => bp::<8>(c),
        _ => bp::<512>(c),
    }
}
/// element iterators skip and count to their end for every argument
#[no_mangle]
pub fn h_tot_it() {
    let c = choose(0, 6 * 3 - 1);
    fork(true);
    let n = [0u64, 1, 3, 64, 70, 130][(c % 6) as usize];
    let v = vec_of(n);
    let i = any_us();
    assume(i as u64 >= n);
    match c / 6 {
        0 => {
            let mut it = v.iter();
            check(it.len() as u64 == n, 1);
            check(it.nth(i).is_none() && it.next().is_none() && it.next_back().is_none() && it.len() == 0, 2);
        }
        1 => {
            let mut it = v.iter();
            check(it.nth_back(i).is_none() && it.next().is_none() && it.next_back().is_none() && it.len() == 0, 3);
        }
        _ => {
            let r: RsVec = v.into();
            let mut it = r.iter();
            check(it.nth(i).is_none() && it.next().is_none() && it.len() == 0, 4);
            let mut it = r.into_iter();
            check(it.nth_back(i).is_none() && it.next_back().is_none() && it.len() == 0, 5);
        }
    }
    cover(1);
}
