//! symx: solver-based checking of compiled Rust.
//!
//! usage: symx MODULE.ll ENTRY --out FILE [--timeout-ms N] [--max-steps N] [--max-paths N] [--max-conc N] [--deadline-s N]
//!        [--dump DIR] [--prefix a,b,c] [--paths N]

mod exec;
mod expr;
mod ir;
mod z3;

use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn rec(r: &exec::PathRec) -> String {
    format!("{{\"outcome\":{},\"inputs\":[{}],\"obs\":[{}],\"covers\":[{}]}}", esc(&r.outcome),
        r.inputs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        r.obs.iter().map(|(a, b)| format!("[{a},{}]", esc(&b.to_string()))).collect::<Vec<_>>().join(","),
        r.covers.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse::<u64>().expect(k)).unwrap_or(d);
    let t0 = Instant::now();
    let text = std::fs::read(&args[1]).expect("module");
    let m = ir::Module::parse(text);
    let t_parse = t0.elapsed().as_secs_f64();
    let cfg = exec::Cfg {
        timeout_ms: num("--timeout-ms", 120_000) as u32,
        max_steps: num("--max-steps", 200_000_000),
        max_paths: num("--max-paths", 1_000_000),
        max_conc: num("--max-conc", 600) as u32,
        dump: get("--dump"),
        deadline: get("--deadline-s").map(|s| Instant::now() + Duration::from_secs(s.parse().unwrap())),
        max_depth: num("--max-depth", 6000) as usize,
        shard: (0, 1),
    };
    let keep = num("--paths", 4000) as usize;
    let mut e = exec::Engine::new(m, cfg);
    if let Some(p) = get("--prefix") { e.prefix = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); }
    if let Err(x) = e.run(&args[2]) { e.problems.push(x); }
    let wall = t0.elapsed().as_secs_f64();
    let s = &e.stats;
    let mut fns: Vec<String> = e.called.iter().enumerate().filter(|x| *x.1).map(|x| e.m.funcs[x.0].name.clone()).filter(|n| n.contains("netsblox_vm") || n.contains("netsblox_ast")).map(|n| exec::demangle(&n)).collect();
    fns.sort();
    fns.dedup();
    let all_fns = e.called.iter().filter(|x| **x).count();
    let mut covers: Vec<(u32, u64)> = e.covers.iter().map(|(a, b)| (*a, *b)).collect();
    covers.sort();
    let mut checks: Vec<(u32, u64)> = e.check_ids.iter().map(|(a, b)| (*a, *b)).collect();
    checks.sort();
    let stride = (e.paths.len() + keep.max(1) - 1) / keep.max(1);
    let sample: Vec<String> = e.paths.iter().enumerate().filter(|(i, _)| stride <= 1 || i % stride == 0).map(|(_, r)| rec(r)).collect();
    let out = format!("{{\"entry\":{},\"z3\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"paths\":{},\"forks\":{},\"infeasible\":{},\"steps\":{},\"sym_branches\":{},\"checks\":{},\"check_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"fp_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"nodes\":{},\"functions\":{},\"repo_functions\":[{}],\"covers\":{{{}}},\"check_ids\":{{{}}},\"problems\":[{}],\"violations\":[{}],\"paths_rec\":[{}]}}\n",
        esc(&args[2]), esc(&z3::version()), t_parse, wall, s.paths, s.forks, s.infeasible, s.steps, s.sym_branches, s.checks, s.check_queries, s.sat, s.unsat, s.unknown, s.cached, s.fp_queries, s.solver_s, s.max_query_s, e.ar.nodes.len(), all_fns,
        fns.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","),
        covers.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(","),
        checks.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect::<Vec<_>>().join(","),
        e.problems.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","),
        e.viols.iter().take(200).map(rec).collect::<Vec<_>>().join(","),
        sample.join(","));
    match get("--out") { Some(p) => std::fs::write(p, out).expect("write"), None => print!("{out}") }
}

fn main() {
    // the expression translators recurse; give them room
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
