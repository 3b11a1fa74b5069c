mod bitvec;
mod bp;
mod elias;
mod iters;
mod rmq;
mod rsvec;
#[cfg(feature = "serde")]
mod serial;
#[cfg(feature = "simd")]
mod simd;
mod sym;
mod total;
mod wavelet;

type H = (&'static str, fn());

fn table() -> Vec<H> {
    let mut t: Vec<H> = vec![];
    t.extend_from_slice(bitvec::ALL);
    t.extend_from_slice(rsvec::ALL);
    t.extend_from_slice(rmq::ALL);
    t.extend_from_slice(elias::ALL);
    t.extend_from_slice(iters::ALL);
    t.extend_from_slice(wavelet::ALL);
    t.extend_from_slice(bp::ALL);
    t.extend_from_slice(total::ALL);
    #[cfg(feature = "simd")]
    t.extend_from_slice(simd::ALL);
    #[cfg(feature = "serde")]
    t.extend_from_slice(serial::ALL);
    t
}

#[cfg(feature = "native")]
fn main() {
    // usage: vharness ENTRY INPUTS PARAMS   (comma separated decimal numbers)
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: Option<&String>| -> Vec<u64> {
        s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default()
    };
    sym::setup(nums(a.get(2)), nums(a.get(3)));
    for (n, f) in table() {
        if Some(n) == a.get(1).map(|s| s.as_str()) {
            f();
            std::process::exit(sym::finish());
        }
    }
    println!("REPLAY no such entry");
    std::process::exit(21);
}

#[cfg(not(feature = "native"))]
fn main() {
    // keeps every harness alive; never executed
    let n = std::env::args().count();
    if let Some((_, f)) = table().get(n) {
        f();
    }
}
