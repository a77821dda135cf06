//! symx: symbolic execution of the LLVM IR that rustc produced for a harness and everything it
//! links (uwuhi, std, ...), with Z3 deciding every branch and every check.

mod exec;
mod expr;
mod ir;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.into(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    if pos.len() < 2 {
        eprintln!("usage: symx MODULE.ll ENTRY [--time S] [--threads N] [--out FILE] [--smt DIR] [--repo DIR]");
        std::process::exit(2);
    }
    let g = |k: &str, d: u64| opt.get(k).map(|v| v.parse().expect(k)).unwrap_or(d);
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&pos[0]).expect("module");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse module: {}", e);
            std::process::exit(3);
        }
    };
    let Some(&entry) = m.fidx.get(&pos[1]) else {
        eprintln!("no entry {}", pos[1]);
        std::process::exit(3);
    };
    let load = t0.elapsed().as_secs_f64();
    let repo = opt.get("repo").cloned().unwrap_or("/repo".into());
    let sh = exec::Shared {
        queue: Mutex::new((vec![], 0)),
        cv: std::sync::Condvar::new(),
        hungry: Default::default(),
        stop: Default::default(),
        nthreads: g("threads", 8) as usize,
        deadline: t0 + Duration::from_secs(g("time", 600)),
        timed_out: Default::default(),
        fatal: Mutex::new(None),
        lost: Default::default(),
        grace: opt.get("grace").map(|v| v.parse().expect("grace")),
        viol_at: Default::default(),
        viols: Mutex::new(BTreeMap::new()),
        totals: Mutex::new(Default::default()),
        paths: Default::default(),
        max_viol_keys: 60,
        step_limit: g("steps", 4_000_000),
        sample_paths: g("samples", 4) as usize,
        repo_prefix: repo.clone(),
    };
    exec::explore(&m, entry, &sh);
    let wall = t0.elapsed().as_secs_f64();
    let t = sh.totals.lock().unwrap();
    let fatal = sh.fatal.lock().unwrap().clone();
    let viols = sh.viols.lock().unwrap();
    let lost = sh.lost.lock().unwrap();
    // coverage of the repository
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut ir_fns = 0;
    for fd in &m.funcs {
        let Some(f) = fd.decoded.get() else { continue };
        ir_fns += 1;
        for b in &f.blocks {
            if b.cov.load(Relaxed) == 0 {
                continue;
            }
            for &d in &b.dbg {
                if d == 0 {
                    continue;
                }
                for (file, line, func) in exec::resolve_loc(&m, d, "") {
                    if let Some(rel) = file.strip_prefix(&repo) {
                        let rel = rel.trim_start_matches('/').to_string();
                        fns.insert(format!("{}: {}", rel, func));
                        if line != 0 {
                            lines.entry(rel).or_default().insert(line);
                        }
                    }
                }
            }
        }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!(
        " \"entry\": {}, \"fatal\": {}, \"exhausted\": {},\n",
        js(&pos[1]),
        fatal.as_ref().map(|f| js(f)).unwrap_or("null".into()),
        fatal.is_none() && lost.is_empty() && !sh.timed_out.load(Relaxed)
    ));
    o.push_str(&format!(
        " \"paths\": {}, \"pruned\": {}, \"expected_panics\": {}, \"steps\": {}, \"forks\": {}, \"max_steps\": {}, \"sym_bytes\": {},\n",
        t.paths, t.pruned, t.panics, t.steps, t.forks, t.max_steps, t.max_syms
    ));
    o.push_str(&format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"table\": {}, \"guessed\": {}, \"table_checked\": {}, \"solver_s\": {:.3}, \"wall_s\": {:.3}, \"load_s\": {:.3}, \"ir_functions\": {},\n",
        t.sol.queries, t.sol.sat, t.sol.unsat, t.sol.unknown, t.sol.cache_hits, t.sol.table, t.sol.guessed, t.sol.table_checked, t.sol.time, wall, load, ir_fns
    ));
    let join = |v: Vec<String>| v.join(", ");
    o.push_str(&format!(
        " \"lost\": {{{}}},\n",
        lost.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str(&format!(" \"reach\": {{{}}},\n", join(t.reach.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect())));
    o.push_str(&format!(
        " \"checks\": {{{}}},\n",
        join(t.checks.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect())
    ));
    let mut vs = vec![];
    for (k, v) in viols.iter() {
        vs.push(format!(
            "{{\"key\": {}, \"kind\": {}, \"label\": {}, \"count\": {}, \"inputs\": [{}], \"trace\": [{}]}}",
            js(k),
            js(&v.kind),
            js(&v.label),
            v.count,
            join(v.models.iter().map(|m| js(&hex(m))).collect()),
            join(v.trace.iter().map(|m| js(m)).collect())
        ));
    }
    o.push_str(&format!(" \"violations\": [{}],\n", vs.join(",\n  ")));
    let mut ss = vec![];
    for s in &t.samples {
        ss.push(format!(
            "{{\"input\": {}, \"logs\": [{}], \"panic\": {}}}",
            js(&hex(&s.input)),
            join(s.logs.iter().map(|x| x.to_string()).collect()),
            s.panic
        ));
    }
    o.push_str(&format!(" \"samples\": [{}],\n", ss.join(",\n  ")));
    o.push_str(&format!(" \"functions\": [{}],\n", join(fns.iter().map(|x| js(x)).collect())));
    o.push_str(&format!(
        " \"lines\": {{{}}},\n",
        join(lines.iter().map(|(f, l)| format!("{}: [{}]", js(f), join(l.iter().map(|x| x.to_string()).collect()))).collect())
    ));
    o.push_str(&format!(
        " \"smt\": [{}]\n}}\n",
        join(t.smt.iter().map(|(q, r)| format!("[{}, {}]", js(q), r)).collect())
    ));
    match opt.get("out") {
        Some(p) => std::fs::write(p, o).expect("write"),
        None => print!("{}", o),
    }
    eprintln!(
        "{}: {} paths, {} pruned, {} steps, {} forks, {} queries ({:.2}s solver), {:.2}s wall, {} violation keys{}{}",
        pos[1],
        t.paths,
        t.pruned,
        t.steps,
        t.forks,
        t.sol.queries,
        t.sol.time,
        wall,
        viols.len(),
        if sh.timed_out.load(Relaxed) { ", TIME LIMIT" } else { "" },
        fatal
            .as_ref()
            .or(lost.keys().next())
            .map(|f| format!(", LOST {} PATHS: {}", lost.values().sum::<u64>(), f))
            .unwrap_or_default()
    );
    std::process::exit(if fatal.is_some() { 3 } else { 0 });
}
