//! Harness interface. In the symbolic build these are external functions interpreted by the
//! engine; in the native build (feature `native`) they replay a recorded list of inputs.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vse_any(bits: u64) -> u64;
        fn vse_choose(lo: u64, hi: u64) -> u64;
        fn vse_concretize(x: u64) -> u64;
        fn vse_param(i: u64) -> u64;
        fn vse_assume(c: bool);
        fn vse_check(c: bool, id: u64);
        fn vse_expect_panic(on: bool);
        fn vse_cover(id: u64);
        fn vse_fork(on: bool);
    }
    #[inline(always)]
    pub fn any_bits(bits: u64) -> u64 {
        unsafe { vse_any(bits) }
    }
    #[inline(always)]
    pub fn choose(lo: u64, hi: u64) -> u64 {
        unsafe { vse_choose(lo, hi) }
    }
    #[inline(always)]
    pub fn concretize(x: u64) -> u64 {
        unsafe { vse_concretize(x) }
    }
    #[inline(always)]
    pub fn param(i: u64) -> u64 {
        unsafe { vse_param(i) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vse_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u64) {
        unsafe { vse_check(c, id) }
    }
    #[inline(always)]
    pub fn expect_panic(on: bool) {
        unsafe { vse_expect_panic(on) }
    }
    /// explore both outcomes of every undecided `select` separately instead of building terms
    #[inline(always)]
    pub fn fork(on: bool) {
        unsafe { vse_fork(on) }
    }
    #[inline(always)]
    pub fn cover(id: u64) {
        unsafe { vse_cover(id) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    pub static EXPECT: AtomicBool = AtomicBool::new(false);
    thread_local! {
        static IN: RefCell<(Vec<u64>, usize, Vec<u64>)> = RefCell::new((vec![], 0, vec![]));
    }
    pub fn setup(inputs: Vec<u64>, params: Vec<u64>) {
        IN.with(|i| *i.borrow_mut() = (inputs, 0, params));
        std::panic::set_hook(Box::new(|info| {
            if EXPECT.load(SeqCst) {
                println!("REPLAY expected panic happened");
                std::process::exit(0);
            }
            println!("REPLAY-FAILED panic: {}", info.to_string().replace('\n', " "));
            std::process::exit(11);
        }));
    }
    pub fn finish() -> i32 {
        if EXPECT.load(SeqCst) {
            println!("REPLAY-FAILED an expected panic did not happen");
            return 12;
        }
        println!("REPLAY ok");
        0
    }
    fn next() -> u64 {
        IN.with(|i| {
            let mut i = i.borrow_mut();
            let p = i.1;
            i.1 += 1;
            i.0.get(p).copied().unwrap_or(0)
        })
    }
    pub fn any_bits(bits: u64) -> u64 {
        let v = next();
        if bits < 64 {
            v & ((1 << bits) - 1)
        } else {
            v
        }
    }
    pub fn choose(lo: u64, hi: u64) -> u64 {
        if lo > hi {
            println!("REPLAY assumption not met (empty choice)");
            std::process::exit(20);
        }
        next()
    }
    pub fn concretize(x: u64) -> u64 {
        x
    }
    pub fn param(k: u64) -> u64 {
        IN.with(|i| i.borrow().2.get(k as usize).copied().unwrap_or(0))
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY assumption not met");
            std::process::exit(20);
        }
    }
    pub fn check(c: bool, id: u64) {
        if EXPECT.load(SeqCst) {
            println!("REPLAY-FAILED check {}: an expected panic did not happen", id);
            std::process::exit(12);
        }
        if !c {
            println!("REPLAY-FAILED check {}", id);
            std::process::exit(10);
        }
    }
    pub fn expect_panic(on: bool) {
        if !on && EXPECT.load(SeqCst) {
            println!("REPLAY-FAILED an expected panic did not happen");
            std::process::exit(12);
        }
        EXPECT.store(on, SeqCst);
    }
    pub fn fork(_on: bool) {}
    pub fn cover(_id: u64) {}
}
pub use imp::*;

#[inline(always)]
pub fn any() -> u64 {
    any_bits(64)
}
#[inline(always)]
pub fn any_us() -> usize {
    any_bits(64) as usize
}
/// symbolic value in lo..=hi
#[inline(always)]
pub fn any_in(lo: u64, hi: u64) -> u64 {
    let w = 64 - hi.leading_zeros() as u64;
    if w == 0 {
        return 0;
    }
    let v = any_bits(w);
    assume(v >= lo && v <= hi);
    v
}
/// branch-free select
#[inline(always)]
pub fn sel(c: bool, a: u64, b: u64) -> u64 {
    b ^ ((a ^ b) & (0u64.wrapping_sub(c as u64)))
}
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    a & b
}
/// Option comparison without control flow on the payload
#[inline(always)]
pub fn opt_is(o: Option<u64>, some: bool, v: u64) -> bool {
    match o {
        Some(x) => some & (x == v),
        None => !some,
    }
}
#[inline(always)]
pub fn uopt_is(o: Option<usize>, some: bool, v: u64) -> bool {
    match o {
        Some(x) => some & (x as u64 == v),
        None => !some,
    }
}
/// mask of the n low bits, n in 0..=64, branch-free
#[inline(always)]
pub fn low(n: u64) -> u64 {
    // (1 << n) - 1 with n == 64 handled by a double shift
    !((u64::MAX << (n / 2)) << (n - n / 2))
}

/// the same vector with ones and zeros left behind its end
#[inline(never)]
pub fn dirty(mut v: vers_vecs::BitVec) -> vers_vecs::BitVec {
    let rest = (64 - v.len() % 64) % 64;
    if rest > 0 {
        v.append_bits(0xDB6D_B6DB_6DB6_DB6D, rest);
        v.drop_last(rest);
    }
    v
}
