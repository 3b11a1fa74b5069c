//! Balanced parenthesis trees.
use crate::sym::*;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree, TreeBuilder};
use vers_vecs::{BitVec, BpBuilder, BpTree, RsVec};

pub const ALL: &[(&str, fn())] = &[
    ("h_bp_search", h_bp_search),
    ("h_bp_search_arg", h_bp_search_arg),
    ("h_bp_search_rel", h_bp_search_rel),
    ("h_bp_search_big", h_bp_search_big),
    ("h_bp_lookup", h_bp_lookup),
    ("h_bp_convert", h_bp_convert),
    ("h_bp_nav", h_bp_nav),
    ("h_bp_nav_big", h_bp_nav_big),
    ("h_bp_huge", h_bp_huge),
    ("h_bp_unbalanced", h_bp_unbalanced),
    ("h_bp_build", h_bp_build),
    ("h_bp_build_big", h_bp_build_big),
    ("h_bp_iter", h_bp_iter),
    ("h_bp_iter_big", h_bp_iter_big),
];

/// runs a generic function for the block size given as a parameter
macro_rules! sized {
    ($bs:expr, $f:ident ( $($a:expr),* )) => {
        match $bs {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            8 => $f::<8>($($a),*),
            12 => $f::<12>($($a),*),
            16 => $f::<16>($($a),*),
            20 => $f::<20>($($a),*),
            64 => $f::<64>($($a),*),
            _ => $f::<512>($($a),*),
        }
    };
}

fn pack(b: &[bool]) -> BitVec {
    let mut v = BitVec::new();
    for x in b {
        v.append_bit(*x as u64);
    }
    // most of them with something left behind the end
    if b.len() % 4 == 0 {
        v
    } else {
        dirty(v)
    }
}
/// excess of the first i parentheses at index i
fn excesses(b: &[bool]) -> Vec<i64> {
    let mut e = vec![0];
    let mut x = 0;
    for p in b {
        x += if *p { 1 } else { -1 };
        e.push(x);
    }
    e
}
/// an arbitrary sequence of n parentheses
fn any_seq(n: usize) -> Vec<bool> {
    let mut b = vec![];
    for _ in 0..n {
        b.push(any_bits(1) == 1);
    }
    b
}
/// an arbitrary balanced sequence of n parentheses, of one tree or of several
fn any_tree(n: usize, one: bool) -> Vec<bool> {
    let mut b = vec![];
    let mut e = 0;
    for i in 0..n {
        let left = (n - i) as i64;
        let low = if one && i > 0 && i + 1 < n { 1 } else { 0 };
        // opening if it must be, closing if it must be, free otherwise
        let p = if e == low {
            true
        } else if e == left {
            false
        } else {
            any_bits(1) == 1
        };
        let p = if e >= left { false } else { p };
        b.push(p);
        e += if p { 1 } else { -1 };
    }
    assume(e == 0);
    b
}

// ------------------------------------------------------------------ searches

fn scan_fwd(e: &[i64], i: usize, r: i64) -> Option<usize> {
    let t = e[i + 1] + r;
    (i + 1..e.len() - 1).find(|j| e[j + 1] == t)
}
fn scan_bwd(e: &[i64], i: usize, r: i64) -> Option<usize> {
    let t = e[i] + r;
    (0..i).rev().find(|j| e[*j] == t)
}
#[inline(never)]
fn same(a: Option<usize>, b: Option<usize>) -> bool {
    match b {
        Some(x) => uopt_is(a, true, x as u64),
        None => a.is_none(),
    }
}
fn search_at<const B: usize>(t: &BpTree<B>, b: &[bool], e: &[i64], i: usize, rs: &[i64]) {
    for &r in rs {
        check(same(t.fwd_search(i, r), scan_fwd(e, i, r)), 1);
        check(same(t.bwd_search(i, r), scan_bwd(e, i, r)), 2);
    }
    check(t.excess(i) == e[i + 1], 3);
    if b[i] {
        check(same(t.close(i), scan_fwd(e, i, -1)), 4);
        check(same(t.enclose(i), scan_bwd(e, i, -1)), 5);
    } else {
        check(same(t.open(i), scan_bwd(e, i, -1)), 6);
        check(same(t.enclose(i), scan_bwd(e, i, -2)), 7);
    }
}
fn search<const B: usize>(b: &[bool], at: usize) {
    let n = b.len();
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let e = excesses(b);
    let rs: Vec<i64> = (-(n as i64)..=n as i64).collect();
    let mut i = at;
    while i < n {
        search_at(&t, b, &e, i, &rs);
        i += 2;
    }
    check(t.excess(n) == e[n], 8);
    cover(1);
}
/// params: L, block size. Arbitrary sequences of 0..=L parentheses, every start and relative excess
#[no_mangle]
pub fn h_bp_search() {
    let c = choose(0, 2 * param(0) + 1);
    fork(true);
    let b = any_seq((c / 2) as usize);
    sized!(param(1), search(&b, (c % 2) as usize));
}
fn search_rel<const B: usize>(b: &[bool], i: usize, back: bool) {
    let n = b.len();
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let e = excesses(b);
    let r = any() as i64;
    // the result is the first position with the excess asked for
    if back {
        let end = match t.bwd_search(i, r) {
            Some(j) => {
                check(j < i, 1);
                check(e[j] - e[i] == r, 2);
                j + 1
            }
            None => 0,
        };
        for k in end..i {
            check(e[k] - e[i] != r, 3);
        }
    } else {
        let end = match t.fwd_search(i, r) {
            Some(j) => {
                check(j > i && j < n, 4);
                check(e[j + 1] - e[i + 1] == r, 5);
                j
            }
            None => n,
        };
        for k in i + 1..end {
            check(e[k + 1] - e[i + 1] != r, 6);
        }
    }
    cover(1);
}
/// params: L, block size. Arbitrary sequences of 1..=L parentheses, every start, arbitrary relative excess
#[no_mangle]
pub fn h_bp_search_rel() {
    let n = choose(1, param(0));
    let c = choose(0, 2 * n - 1);
    fork(true);
    let b = any_seq(n as usize);
    sized!(param(1), search_rel(&b, (c / 2) as usize, c % 2 == 1));
}
/// params: block size, first free position, free parentheses, total length:
/// an arbitrary stretch between fixed ones, searched across from both sides with arbitrary relative excess
#[no_mangle]
pub fn h_bp_lookup() {
    let (bs, at, w, n) = (param(0), param(1) as usize, param(2) as usize, param(3) as usize);
    let c = choose(0, 11);
    fork(true);
    let free = any_seq(w);
    let mut b = vec![];
    for i in 0..n {
        b.push(if i >= at && i < at + w {
            free[i - at]
        } else {
            // surroundings: rising, falling or flat
            [i % 2 == 0, i % 4 != 3, i % 4 == 3][(c % 3) as usize]
        });
    }
    let (i, back) = match c / 3 {
        0 => (at.saturating_sub(1), false),
        1 => (at.saturating_sub(2), false),
        2 => ((at + w).min(n - 1), true),
        _ => ((at + w + 1).min(n - 1), true),
    };
    sized!(bs, search_rel(&b, i, back));
}
fn search_arg<const B: usize>(b: &[bool], c: u64) {
    let n = b.len();
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let (i, r) = (any_us(), any() as i64);
    match c {
        0 => {
            assume(i >= n);
            check(t.fwd_search(i, r).is_none(), 1);
            check(t.bwd_search(i, r).is_none(), 2);
            check(t.close(i).is_none(), 3);
            check(t.open(i).is_none(), 4);
            check(t.enclose(i).is_none(), 5);
            check(t.excess(i) == excesses(b)[n], 21);
        }
        1 => {
            assume(r > n as i64 || r < -(n as i64));
            let i = choose(0, n as u64) as usize;
            check(t.fwd_search(i, r).is_none(), 6);
            check(t.bwd_search(i, r).is_none(), 7);
        }
        _ => {
            // an empty tree
            let t = BpTree::<B>::from_bit_vector(BitVec::new());
            check(t.fwd_search(i, r).is_none(), 8);
            check(t.bwd_search(i, r).is_none(), 9);
            check(t.close(i).is_none() && t.open(i).is_none() && t.enclose(i).is_none(), 10);
            check(t.root().is_none(), 11);
            check(t.size() == 0 && t.is_empty(), 12);
            check(t.level_leftmost(i as u64).is_none(), 13);
            check(t.level_rightmost(i as u64).is_none(), 14);
            check(t.dfs_iter().next().is_none(), 15);
            check(t.dfs_post_iter().next().is_none(), 16);
            check(t.iter().next().is_none(), 17);
            check(t.into_iter().next().is_none(), 18);
        }
    }
    cover(1);
}
/// params: L, block size. Arbitrary start beyond the end; arbitrary huge relative excess
#[no_mangle]
pub fn h_bp_search_arg() {
    let c = choose(0, 2);
    fork(true);
    let b = any_seq(param(0) as usize);
    sized!(param(1), search_arg(&b, c));
}
/// background sequences of n parentheses (n even): all are single trees
fn shape(kind: u64, n: usize) -> Vec<bool> {
    let mut b = vec![false; n];
    match kind {
        // one deep chain
        0 => b[..n / 2].fill(true),
        // root with leaves
        1 => {
            for i in 0..n {
                b[i] = i == 0 || (i % 2 == 1 && i < n - 1);
            }
        }
        // teeth of growing depth
        2 => {
            let (mut i, mut k) = (1, 1);
            b[0] = true;
            while i < n - 1 {
                let d = k.min((n - 1 - i) / 2);
                for j in 0..d {
                    b[i + j] = true;
                }
                i += 2 * d;
                k += 3;
            }
        }
        // pseudo-random walk
        _ => {
            let mut e = 0;
            for i in 0..n {
                let left = n - i;
                let r = ((i as u64 + 3 + kind).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) % 16;
                let up = r < if i < n / 2 { 9 } else { 7 };
                let p = if e >= left { false } else if i == 0 || e == 1 { i != n - 1 } else { up };
                b[i] = p;
                e = if p { e + 1 } else { e.saturating_sub(1) };
            }
        }
    }
    b
}
fn spots(n: usize, bs: usize, place: usize) -> [usize; 4] {
    let at = [0, bs.saturating_sub(2), n / 2, (n / bs.max(1)) * bs, n - 4, 2 * bs, n / 3, 3 * bs + 5][place % 8].min(n - 4);
    [at, at + 1, at + 2, at + 3]
}
fn search_big<const B: usize>(b: &[bool], near: &[usize]) {
    let n = b.len();
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let e = excesses(b);
    let mut at: Vec<usize> = vec![0, 1, n / 4, n / 2, n - 2, n - 1];
    for x in near {
        at.extend([x.saturating_sub(1), *x, x + 1]);
    }
    for k in 1..4 {
        at.extend([(k * B).wrapping_sub(1), k * B, k * B + 1]);
    }
    at.retain(|x| *x < n);
    at.sort_unstable();
    at.dedup();
    let m = n as i64;
    for &i in &at {
        let mut rs = vec![-m, -100, -17, -8, -3, -2, -1, 0, 1, 2, 3, 8, 9, 40, m / 4, m / 2];
        // the extremes of what can be found
        rs.push(e[1..].iter().max().unwrap() - e[i + 1]);
        rs.push(e[1..].iter().max().unwrap() - e[i]);
        rs.push(-e[i]);
        rs.push(-e[i] + 1);
        search_at(&t, b, &e, i, &rs);
    }
    cover(1);
}
/// params: n, block size, shape, places: four free parentheses in a larger sequence
#[no_mangle]
pub fn h_bp_search_big() {
    let (n, bs, kind) = (param(0) as usize, param(1) as usize, param(2));
    let c = choose(0, param(3) - 1) as usize;
    fork(true);
    let mut b = shape(kind, n);
    let s = spots(n, bs, c);
    for x in s {
        b[x] = any_bits(1) == 1;
    }
    sized!(param(1), search_big(&b, &[s[0], s[3]]));
}
fn convert<const B: usize>(b: &[bool], how: u64) {
    let n = b.len();
    let v = pack(b);
    let t = if how % 2 == 0 { BpTree::<B>::from_bit_vector(v) } else { BpTree::<B>::from(v) };
    let size = b.iter().filter(|x| **x).count();
    check(t.size() == size, 1);
    check(t.is_empty() == (n == 0), 2);
    let v: BitVec = match how / 2 {
        0 => t.into(),
        1 => {
            let r: RsVec = t.into();
            r.into_bit_vec()
        }
        _ => t.into_parentheses_vec().into_bit_vec(),
    };
    check(v.len() == n, 3);
    for i in 0..n {
        check(v.get(i) == Some(b[i] as u64), 4);
    }
    cover(1);
}
/// params: L. The sequence comes back unchanged
#[no_mangle]
pub fn h_bp_convert() {
    let c = choose(0, 6 * (param(0) + 1) - 1);
    let b = any_seq((c / 6) as usize);
    fork(true);
    convert::<4>(&b, c % 6);
}

// ------------------------------------------------------------------ navigation

struct Node {
    open: usize,
    close: usize,
    parent: Option<usize>,
    depth: u64,
    children: Vec<usize>,
}
/// the ordinary tree: nodes in pre-order
fn nodes(b: &[bool]) -> Vec<Node> {
    let mut v: Vec<Node> = vec![];
    let mut stack: Vec<usize> = vec![];
    for (i, p) in b.iter().enumerate() {
        if *p {
            let k = v.len();
            let parent = stack.last().copied();
            if let Some(q) = parent {
                v[q].children.push(k);
            }
            v.push(Node { open: i, close: 0, parent, depth: stack.len() as u64, children: vec![] });
            stack.push(k);
        } else {
            let k = stack.pop().unwrap();
            v[k].close = i;
        }
    }
    v
}
fn nav_node<const B: usize>(t: &BpTree<B>, v: &[Node], k: usize) {
    let x = &v[k];
    let h = x.open;
    let at = |k: Option<usize>| k.map(|k| v[k].open);
    check(same(t.parent(h), at(x.parent)), 1);
    check(same(t.first_child(h), at(x.children.first().copied())), 2);
    check(same(t.last_child(h), at(x.children.last().copied())), 3);
    let (mut prev, mut next) = (None, None);
    if let Some(p) = x.parent {
        let c = &v[p].children;
        let mut j = 0;
        while c[j] != k {
            j += 1;
        }
        if j > 0 {
            prev = Some(c[j - 1]);
        }
        next = c.get(j + 1).copied();
    }
    check(same(t.next_sibling(h), at(next)), 4);
    check(same(t.previous_sibling(h), at(prev)), 5);
    check(t.is_leaf(h) == x.children.is_empty(), 6);
    check(t.depth(h) == x.depth, 7);
    check(t.node_index(h) == k, 8);
    check(t.node_handle(k) == h, 9);
    check(same(t.subtree_size(h), Some((x.close - h + 1) / 2)), 10);
    check(same(t.close(h), Some(x.close)), 11);
    check(same(t.open(x.close), Some(h)), 12);
    check(same(t.enclose(x.close), at(x.parent)), 13);
    // levels
    let mut a = Some(k);
    let levels = if x.depth < 40 { x.depth + 2 } else { 3 };
    for l in 0..=levels {
        check(same(t.level_ancestor(h, l), at(a)), 14);
        a = a.and_then(|a| v[a].parent);
    }
    if x.depth >= 40 {
        check(same(t.level_ancestor(h, x.depth), Some(0)), 15);
        check(t.level_ancestor(h, x.depth + 1).is_none(), 16);
    }
    let next = v[k + 1..].iter().find(|y| y.depth == x.depth).map(|y| y.open);
    let prev = v[..k].iter().rev().find(|y| y.depth == x.depth).map(|y| y.open);
    check(same(t.level_next(h), next), 17);
    check(same(t.level_prev(h), prev), 18);
}
fn nav_tree<const B: usize>(t: &BpTree<B>, v: &[Node], levels: &[u64]) {
    check(same(t.root(), if v.is_empty() { None } else { Some(0) }), 21);
    check(t.size() == v.len(), 22);
    check(t.is_empty() == v.is_empty(), 23);
    for &l in levels {
        let first = v.iter().find(|y| y.depth == l).map(|y| y.open);
        let last = v.iter().rev().find(|y| y.depth == l).map(|y| y.open);
        check(same(t.level_leftmost(l), first), 24);
        check(same(t.level_rightmost(l), last), 25);
    }
}
fn nav<const B: usize>(b: &[bool]) {
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let v = nodes(b);
    let levels: Vec<u64> = (0..=v.len() as u64 + 1).collect();
    nav_tree(&t, &v, &levels);
    for k in 0..v.len() {
        nav_node(&t, &v, k);
        for m in 0..v.len() {
            let is = v[k].open <= v[m].open && v[m].open < v[k].close;
            check(t.is_ancestor(v[k].open, v[m].open) == Some(is), 31);
        }
    }
    let far = any();
    assume(far > v.len() as u64);
    check(t.level_leftmost(far).is_none(), 32);
    check(t.level_rightmost(far).is_none(), 33);
    if !v.is_empty() {
        check(t.level_ancestor(v[v.len() - 1].open, far).is_none(), 34);
    }
    cover(1);
}
/// params: N, block size: every tree of 0..=N nodes
#[no_mangle]
pub fn h_bp_nav() {
    let n = choose(0, param(0)) as usize;
    fork(true);
    let b = any_tree(2 * n, true);
    sized!(param(1), nav(&b));
}
fn nav_big<const B: usize>(b: &[bool], near: &[usize]) {
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let v = nodes(b);
    let deepest = v.iter().map(|x| x.depth).max().unwrap();
    nav_tree(&t, &v, &[0, 1, 2, deepest / 2, deepest - 1, deepest, deepest + 1]);
    let mut ks = vec![0, 1, v.len() / 2, v.len() - 1];
    for k in 0..v.len() {
        let h = v[k].open;
        let border = (h % B < 2 || v[k].close % B < 2 || h % B == B - 1) && (B >= 64 || k % 16 == 3);
        if border || near.iter().any(|x| h + 2 >= *x && h <= x + 2) {
            ks.push(k);
        }
    }
    ks.sort_unstable();
    ks.dedup();
    for k in ks {
        nav_node(&t, &v, k);
        for m in [0, k.saturating_sub(1), k, k + 1, k + 2, v.len() - 1] {
            if m < v.len() {
                let is = v[k].open <= v[m].open && v[m].open < v[k].close;
                check(t.is_ancestor(v[k].open, v[m].open) == Some(is), 31);
            }
        }
    }
    cover(1);
}
/// params: n, block size, shape, places: a large tree with four free parentheses
#[no_mangle]
pub fn h_bp_nav_big() {
    let (n, bs, kind) = (param(0) as usize, param(1) as usize, param(2));
    let c = choose(0, param(3) - 1) as usize;
    fork(true);
    let mut b = shape(kind, n);
    let s = spots(n, bs, c);
    for x in s {
        b[x] = any_bits(1) == 1;
    }
    let e = excesses(&b);
    assume(e[n] == 0);
    for i in 1..n {
        assume(e[i] > 0);
    }
    sized!(param(1), nav_big(&b, &[s[0], s[3]]));
}
fn huge<const B: usize>(b: &[bool], x: usize) {
    let n = b.len();
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let v = nodes(b);
    let deepest = v.iter().map(|x| x.depth).max().unwrap();
    nav_tree(&t, &v, &[1, deepest / 2, deepest, deepest + 1]);
    let first = v.partition_point(|y| y.open + 2 < x);
    let mut ks = vec![0, 1, v.len() / 2, v.len() / 2 + 1, v.len() - 1];
    ks.extend(first..(first + 4).min(v.len()));
    // far from everything, and next to block borders
    for j in 1..8 {
        ks.push(v.partition_point(|y| y.open < n / B * j / 8 * B).min(v.len() - 1));
    }
    ks.sort_unstable();
    ks.dedup();
    let e = excesses(b);
    for k in ks {
        nav_node(&t, &v, k);
        let d = v[k].depth;
        if d > 10 {
            let mut a = k;
            let half = d / 2 + 1;
            for _ in 0..half {
                a = v[a].parent.unwrap();
            }
            check(same(t.level_ancestor(v[k].open, half), Some(v[a].open)), 35);
        }
        check(t.is_ancestor(0, v[k].open) == Some(true), 31);
        search_at(&t, b, &e, v[k].open, &[-(n as i64), -(d as i64), -(d as i64) - 1, 0, 1, deepest as i64 - d as i64]);
    }
    cover(1);
}
/// params: n, block size, shape, places: a very large tree with one free pair of parentheses
#[no_mangle]
pub fn h_bp_huge() {
    let (n, bs, kind) = (param(0) as usize, param(1) as usize, param(2));
    let c = choose(0, param(3) - 1) as usize;
    fork(true);
    let mut b = shape(kind, n);
    let mut x = spots(n, bs, c)[0].max(1);
    while x + 2 < n && b[x] == b[x + 1] {
        x += 1;
    }
    let v = any_bits(1) == 1;
    if x + 2 < n {
        b[x] = v;
        b[x + 1] = !v;
        let e = excesses(&b);
        assume(e[x + 1] > 0);
    }
    sized!(param(1), huge(&b, x));
}
fn unbalanced<const B: usize>(b: &[bool], level: u64) {
    let t = BpTree::<B>::from_bit_vector(pack(b));
    // results are unspecified, but nothing panics
    let mut k = 0usize;
    let _ = t.root();
    k += t.size();
    k = k.wrapping_add(t.level_leftmost(level).unwrap_or(1));
    k = k.wrapping_add(t.level_rightmost(level).unwrap_or(1));
    for (i, p) in b.iter().enumerate() {
        if *p {
            for o in [t.parent(i), t.first_child(i), t.last_child(i), t.next_sibling(i), t.previous_sibling(i), t.subtree_size(i), t.level_next(i), t.level_prev(i), t.level_ancestor(i, level)] {
                k = k.wrapping_add(o.unwrap_or(3));
            }
            k = k.wrapping_add(t.depth(i) as usize + t.node_index(i) + t.is_leaf(i) as usize);
            for (j, q) in b.iter().enumerate() {
                if *q {
                    k = k.wrapping_add((t.is_ancestor(i, j) == Some(true)) as usize);
                }
            }
        }
    }
    check(t.dfs_iter().count() == t.size(), 1);
    check(k != usize::MAX, 2);
    cover(1);
}
/// params: L, block size: no navigation panics on any sequence
#[no_mangle]
pub fn h_bp_unbalanced() {
    let n = choose(0, param(0)) as usize;
    let level = choose(0, 4);
    fork(true);
    let b = any_seq(n);
    sized!(param(1), unbalanced(&b, level));
}

// ------------------------------------------------------------------ building and iterating

fn build<const B: usize>(n: usize) {
    let mut bld = if n % 2 == 0 { BpBuilder::<B>::new() } else if n % 4 == 1 { BpBuilder::<B>::with_capacity(3) } else { BpBuilder::<B>::default() };
    let mut b = vec![];
    for _ in 0..n {
        let p = any_bits(1) == 1;
        b.push(p);
        if p {
            bld.enter_node();
        } else {
            bld.leave_node();
        }
    }
    let e = excesses(&b)[n];
    match bld.build() {
        Err(x) => {
            check(e != 0, 1);
            check(x == e, 2);
        }
        Ok(t) => {
            check(e == 0, 3);
            check(t.size() == n / 2, 4);
            let v: BitVec = t.into();
            check(v.len() == n, 5);
            for i in 0..n {
                check(v.get(i) == Some(b[i] as u64), 6);
            }
        }
    }
    cover(1);
}
/// params: L, block size: every history of 0..=L builder calls
#[no_mangle]
pub fn h_bp_build() {
    let n = choose(0, param(0)) as usize;
    fork(true);
    sized!(param(1), build(n));
}
/// compares an iterator with a list
#[inline(never)]
fn lists(it: impl Iterator<Item = usize>, want: &[usize], id: u64) {
    let mut k = 0;
    for x in it {
        check(k < want.len() && x == want[k.min(want.len().wrapping_sub(1))], id);
        k += 1;
    }
    check(k == want.len(), id + 1);
}
fn iter_node<const B: usize>(t: &BpTree<B>, v: &[Node], k: usize) {
    let x = &v[k];
    let size = (x.close - x.open + 1) / 2;
    let pre: Vec<usize> = v[k..k + size].iter().map(|y| y.open).collect();
    lists(t.subtree_iter(x.open), &pre, 11);
    let mut post: Vec<&Node> = v[k..k + size].iter().collect();
    post.sort_by_key(|y| y.close);
    let post: Vec<usize> = post.iter().map(|y| y.open).collect();
    lists(t.subtree_post_iter(x.open), &post, 13);
    let mut ch: Vec<usize> = x.children.iter().map(|c| v[*c].open).collect();
    lists(t.children(x.open), &ch, 15);
    ch.reverse();
    lists(t.rev_children(x.open), &ch, 17);
}
fn iter_tree<const B: usize>(t: BpTree<B>, v: &[Node]) {
    let pre: Vec<usize> = v.iter().map(|y| y.open).collect();
    lists(t.iter(), &pre, 1);
    lists(t.dfs_iter(), &pre, 3);
    let mut post: Vec<&Node> = v.iter().collect();
    post.sort_by_key(|y| y.close);
    let post: Vec<usize> = post.iter().map(|y| y.open).collect();
    lists(t.dfs_post_iter(), &post, 5);
    lists(t.into_iter(), &pre, 7);
}
fn iter<const B: usize>(b: &[bool]) {
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let v = nodes(b);
    for k in 0..v.len() {
        iter_node(&t, &v, k);
    }
    iter_tree(t, &v);
    cover(1);
}
/// params: N, block size: every forest of 0..=N nodes
#[no_mangle]
pub fn h_bp_iter() {
    let n = choose(0, param(0)) as usize;
    fork(true);
    let b = any_tree(2 * n, false);
    sized!(param(1), iter(&b));
}
fn iter_big<const B: usize>(b: &[bool]) {
    let t = BpTree::<B>::from_bit_vector(pack(b));
    let v = nodes(b);
    for k in [0, 1, v.len() / 2, v.len() / 3, v.len() - 1] {
        iter_node(&t, &v, k);
    }
    iter_tree(t, &v);
    cover(1);
}
/// params: n, block size, shape, places
#[no_mangle]
pub fn h_bp_iter_big() {
    let (n, bs, kind) = (param(0) as usize, param(1) as usize, param(2));
    let c = choose(0, param(3) - 1) as usize;
    fork(true);
    let mut b = shape(kind, n);
    for x in spots(n, bs, c) {
        b[x] = any_bits(1) == 1;
    }
    let e = excesses(&b);
    assume(e[n] == 0);
    for i in 1..n {
        assume(e[i] >= 0);
    }
    sized!(param(1), iter_big(&b));
}
fn build_big<const B: usize>(b: &[bool]) {
    let n = b.len();
    let mut bld = if n % 2 == 0 { BpBuilder::<B>::new() } else { BpBuilder::<B>::with_capacity(n as u64) };
    for p in b {
        if *p {
            bld.enter_node();
        } else {
            bld.leave_node();
        }
    }
    let e = excesses(b)[n];
    match bld.build() {
        Err(x) => check(e != 0 && x == e, 1),
        Ok(t) => {
            check(e == 0, 3);
            check(t.size() == n / 2, 4);
            let v: BitVec = t.into();
            check(v.len() == n, 5);
            for i in 0..n {
                check(v.get(i) == Some(b[i] as u64), 6);
            }
        }
    }
    cover(1);
}
/// params: calls, block size, shape, places: a long history of builder calls, four of them free
#[no_mangle]
pub fn h_bp_build_big() {
    let (n, bs, kind) = (param(0) as usize, param(1) as usize, param(2));
    let c = choose(0, param(3) - 1) as usize;
    fork(true);
    let mut b = if kind == 9 { vec![true; n] } else { shape(kind, n) };
    for x in spots(n, bs, c) {
        b[x] = any_bits(1) == 1;
    }
    sized!(param(1), build_big(&b));
}
