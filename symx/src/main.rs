#![allow(dead_code)]
//! symx: symbolic execution of optimised LLVM IR with z3 as the decision procedure.
mod exec;
mod expr;
mod ir;
mod lower;
mod replay;
mod selftest;
mod solver;

use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inp(v: &[(u8, u64)]) -> String { js(&v.iter().map(|(w, x)| format!("{w}:{x}")).collect::<Vec<_>>().join(",")) }

fn opt(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()) }

fn run(args: &[String]) -> i32 {
    let ll = &args[0];
    let harness = &args[1];
    let num = |k: &str, d: u64| opt(args, k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let m = ir::Module::load(ll);
    let load_s = t0.elapsed().as_secs_f64();
    let deadline = Instant::now() + Duration::from_secs(num("--deadline", 600));
    let mut e = exec::Exec::new(m, num("--query-ms", 120_000) as u32, deadline);
    e.max_steps = num("--max-steps", 40_000_000);
    e.max_samples = num("--samples", 4) as usize;
    e.trace = args.iter().any(|a| a == "--trace");
    e.s.verbose = e.trace;
    e.s.dump = opt(args, "--dump");
    e.run_harness(harness);
    let mut funcs: Vec<(String, u64, u64)> = e.funcs_seen.iter().map(|(f, n)| (e.m.fname[*f as usize].clone(), *n, 0)).collect();
    funcs.sort();
    let mut o = String::from("{");
    o += &format!("\"harness\":{},\"paths\":{},\"expected_panics\":{},\"forks\":{},\"merges\":{},\"instructions\":{},\"checks\":{},\"checks_symbolic\":{},\"assume_cut\":{},", js(harness), e.paths, e.panics_expected, e.forks, e.merges, e.insts, e.checks, e.checks_sym, e.assumes_cut);
    o += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},\"symbolic_bits\":{},", e.s.queries, e.s.sat, e.s.unsat, e.s.unknown, e.s.time, e.s.max_time, load_s, t0.elapsed().as_secs_f64(), e.c.nodes.len(), e.c.vars.iter().map(|v| *v as u64).sum::<u64>());
    o += &format!("\"solver\":{},", js(&format!("z3 {}", solver::z3_version())));
    o += &format!("\"inconclusive\":[{}],", e.incon.iter().take(5).map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"obligations\":[{}],", e.obligations.iter().map(|(l, n)| format!("[{},{}]", js(l), n)).collect::<Vec<_>>().join(","));
    o += &format!("\"covers\":{{{}}},", e.covers.iter().map(|(l, n)| format!("{}:{}", js(l), n)).collect::<Vec<_>>().join(","));
    o += &format!("\"findings\":[{}],", e.findings.iter().map(|f| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"known\":[{}],\"stack\":[{}]}}", js(&f.kind), js(&f.msg), inp(&f.inputs), f.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), f.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}],", e.samples.iter().map(|s| format!("{{\"inputs\":{},\"obs\":[{}],\"panicked\":{}}}", inp(&s.inputs), s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), s.panicked)).collect::<Vec<_>>().join(","));
    o += &format!("\"functions\":[{}]", funcs.iter().map(|(f, n, _)| format!("[{},{}]", js(f), n)).collect::<Vec<_>>().join(","));
    o += "}";
    println!("{o}");
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => replay::run(&args[1], &args[2], &args[3]),
        _ => std::thread::Builder::new().stack_size(4 << 30).spawn(move || match args.first().map(|s| s.as_str()) {
            Some("run") => run(&args[1..]),
            Some("list") => { let m = ir::Module::load(&args[1]); let p = &args[2]; for f in &m.fname { if f.starts_with(p.as_str()) { println!("{f}") } } 0 }
            Some("selftest") => if selftest::run() { 0 } else { 1 },
            _ => { eprintln!("usage: symx run LL HARNESS [opts] | replay SO HARNESS INPUTS | selftest"); 2 }
        }).unwrap().join().unwrap_or(71),
    };
    std::process::exit(code)
}
