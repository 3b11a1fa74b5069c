#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod solver;
use std::io::Write;

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => r.push(c),
        }
    }
    r
}

fn real_main() -> i32 {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VSE_PANIC").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = None;
    let mut parse_all = false;
    let mut src_prefix = String::from("/repo/src");
    let mut o = exec::Opts {
        shard: (0, 1),
        time: 600.0,
        max_steps: 20_000_000,
        verbose: false,
        concrete: None,
        samples: 0,
        params: vec![],
        max_violations: 4,
    };
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ir" => {
                file = args[i + 1].clone();
                i += 1
            }
            "--entry" => {
                entry = args[i + 1].clone();
                i += 1
            }
            "--out" => {
                out = Some(args[i + 1].clone());
                i += 1
            }
            "--src" => {
                src_prefix = args[i + 1].clone();
                i += 1
            }
            "--time" => {
                o.time = args[i + 1].parse().unwrap();
                i += 1
            }
            "--samples" => {
                o.samples = args[i + 1].parse().unwrap();
                i += 1
            }
            "--steps" => {
                o.max_steps = args[i + 1].parse().unwrap();
                i += 1
            }
            "--shard" => {
                let (a, b) = args[i + 1].split_once('/').unwrap();
                o.shard = (a.parse().unwrap(), b.parse().unwrap());
                i += 1
            }
            "--concrete" => {
                o.concrete =
                    Some(args[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
                i += 1
            }
            "--param" => {
                o.params = args[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                i += 1
            }
            "-v" => o.verbose = true,
            "--parse-all" => parse_all = true,
            x => {
                eprintln!("unknown argument {}", x);
                return 64;
            }
        }
        i += 1;
    }
    let src = std::fs::read_to_string(&file).expect("read IR");
    let m = ir::parse_module(&src);
    if parse_all {
        let mut uns = std::collections::BTreeMap::new();
        for (n, t) in &m.defs {
            let f = ir::parse_func(t);
            for b in &f.blocks {
                for i in &b.insts {
                    if let ir::I::Unsupported(s) = &i.i {
                        *uns.entry(s.split_whitespace().take(3).collect::<Vec<_>>().join(" ")).or_insert(0) += 1;
                        let _ = n;
                    }
                }
            }
        }
        println!("functions {} globals {} unsupported {:?}", m.defs.len(), m.globals.len(), uns);
        return 0;
    }
    let t0 = std::time::Instant::now();
    let mut e = exec::Exec::new(m, o);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&entry)));
    if let Err(p) = r {
        let s = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        e.error = Some(format!("engine: {}", s));
    }
    let wall = t0.elapsed().as_secs_f64();
    let status = if !e.violations.is_empty() {
        "violation"
    } else if e.unsupported > 0 || (e.error.is_some() && !e.out_of_time) {
        "error"
    } else if e.out_of_time {
        "partial"
    } else if e.inconclusive > 0 {
        "inconclusive"
    } else {
        "holds"
    };
    if !e.prof.is_empty() {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, (n, t)) in v.iter().take(25) {
            eprintln!("{:6} {:8.2}s {}", n, t, k);
        }
    }
    // coverage
    let mut lines = std::collections::BTreeMap::<String, std::collections::BTreeSet<u64>>::new();
    let mut funcs = std::collections::BTreeSet::new();
    for d in 0..e.dbg_seen.len() {
        if e.dbg_seen[d] {
            if let Some((f, n, l)) = e.loc3(d as u32) {
                if f.starts_with(&src_prefix) {
                    lines.entry(f).or_default().insert(l);
                    funcs.insert(n);
                }
            }
        }
    }
    let mut j = String::new();
    j.push_str(&format!(
        "{{\"entry\":\"{}\",\"status\":\"{}\",\"paths\":{},\"paths_killed\":{},\"paths_panic_ok\":{},\"forks\":{},\"checks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_pc\":{},\"nodes\":{},\"wall_s\":{:.3},\"solver\":\"z3 {}\"",
        entry, status, e.paths_done, e.paths_killed, e.paths_panic_ok, e.forks, e.checks, e.steps, e.solver.queries, e.solver.sat,
        e.solver.unsat, e.solver.unknown, e.solver.cached, e.solver.time, e.solver.max_time, e.max_pc, expr::ctx().nodes.len(), wall, esc(&solver::version())
    ));
    j.push_str(&format!(
        ",\"covers\":{{{}}}",
        e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(",\"unsupported\":{},\"inconclusive\":{}", e.unsupported, e.inconclusive));
    j.push_str(",\"violations\":[");
    for (i, (m, v, w)) in e.violations.iter().enumerate() {
        j.push_str(&format!(
            "{}{{\"what\":\"{}\",\"inputs\":[{}],\"at\":\"{}\"}}",
            if i > 0 { "," } else { "" },
            esc(m),
            v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
            esc(w)
        ));
    }
    j.push(']');
    if let Some(m) = &e.error {
        j.push_str(&format!(",\"error\":\"{}\"", esc(m)));
    }
    j.push_str(&format!(
        ",\"samples\":[{}]",
        e.samples
            .iter()
            .map(|s| format!("[{}]", s.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        ",\"functions\":[{}],\"lines\":{{{}}}}}",
        funcs.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","),
        lines
            .iter()
            .map(|(f, l)| format!(
                "\"{}\":[{}]",
                esc(f),
                l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    match out {
        Some(f) => {
            std::fs::File::create(f).unwrap().write_all(j.as_bytes()).unwrap();
        }
        None => println!("{}", j),
    }
    match status {
        "holds" => 0,
        "violation" => 1,
        "inconclusive" => 3,
        "partial" => 2,
        _ => 4,
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(5);
    std::process::exit(r);
}
