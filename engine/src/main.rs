mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

/// Legacy Rust mangling; other names are returned as they are.
pub fn demangle(s: &str) -> String {
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            return s.to_string();
        }
        parts.push(r[i..i + n].to_string());
        i += n;
    }
    if parts.last().map(|p| p.len() == 17 && p.starts_with('h')).unwrap_or(false) {
        parts.pop();
    }
    let mut t = parts.join("::");
    for (a, b) in [
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$RF$", "&"),
        ("$u20$", " "),
        ("$C$", ","),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$BP$", "*"),
        ("$u27$", "'"),
        ("$u3b$", ";"),
        ("$u2b$", "+"),
        ("..", "::"),
    ] {
        t = t.replace(a, b);
    }
    t.trim_start_matches('_').to_string()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        if i + 1 < args.len() && !args[i + 1].starts_with("--") {
            a.insert(k, args[i + 1].clone());
            i += 2;
        } else {
            a.insert(k, "1".into());
            i += 1;
        }
    }
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let ll = get("ll", "");
    let entry = get("entry", "");
    let out = get("json", "");
    let shard = {
        let s = get("shard", "0/1");
        let (x, y) = s.split_once('/').unwrap();
        (x.parse().unwrap(), y.parse().unwrap())
    };
    let cfg = exec::Config {
        max_instrs: get("max-instrs", "50000000").parse().unwrap(),
        max_paths: get("max-paths", "10000000").parse().unwrap(),
        time_s: get("time", "600").parse().unwrap(),
        max_violations: 64,
        preempt_bound: get("preempt", "0").parse().unwrap(),
        shard,
        shard_width: get("shard-width", "0").parse().unwrap(),
        verbose: a.contains_key("verbose"),
        stop_on_violation: a.contains_key("stop"),
        real_debug: a.contains_key("real-debug"),
        max_alloc: get("max-alloc", "8388608").parse().unwrap(),
    };
    let timeout: u32 = get("solver-timeout", "60000").parse().unwrap();
    // deep recursion in parsing constants and building terms
    let th = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let text = std::fs::read_to_string(&ll).expect("read ll");
            let m = ir::Module::load(text, ext::intercept);
            let load_s = t0.elapsed().as_secs_f64();
            let mut e = exec::Engine::new(m, cfg, timeout);
            let st = e.initial(&entry);
            e.run(st);
            let rep = report(&mut e, &entry, load_s);
            if out.is_empty() {
                println!("{rep}");
            } else {
                std::fs::write(&out, rep).expect("write json");
            }
            // no teardown
            std::process::exit(0);
        })
        .unwrap();
    let _ = th.join();
    std::process::exit(4);
}

fn report(e: &mut exec::Engine, entry: &str, load_s: f64) -> String {
    // what was executed, by the debug information of the executed blocks
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut seen = std::collections::HashSet::new();
    let mut blocks = 0u64;
    let mut nfun = 0u64;
    for id in 0..e.covered.len() {
        let Some(f) = e.fcache[id] else { continue };
        nfun += 1;
        for (b, c) in e.covered[id].iter().enumerate() {
            if !*c {
                continue;
            }
            blocks += 1;
            for ins in &f.blocks[b].ins {
                if ins.dbg == 0 || !seen.insert(ins.dbg) {
                    continue;
                }
                for (file, line, name) in e.m.loc_chain(ins.dbg) {
                    if file.contains("/repo/") || file.contains("/mirror/") || file.contains("/repo-src/") {
                        if line > 0 {
                            lines.entry(file.clone()).or_default().insert(line);
                        }
                        fns.entry(file.clone()).or_default().insert(demangle(&name));
                    }
                }
            }
        }
    }
    let mut o = String::new();
    let s = &e.s.stats;
    let _ = write!(
        o,
        "{{\"entry\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"instrs\":{},\"forks\":{},\"functions_entered\":{},\"blocks_entered\":{},\"max_symbolic_bytes\":{},\"terms\":{},",
        js(entry),
        load_s,
        e.t0.elapsed().as_secs_f64(),
        e.instrs,
        e.total_forks,
        nfun,
        blocks,
        e.max_syms,
        e.x.nodes.len()
    );
    let _ = write!(
        o,
        "\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"byte_domain\":{},\"confirmed\":{},\"model_hits\":{},\"time_s\":{:.3},\"max_query_s\":{:.3}}},",
        js(&solver::z3_version()),
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cache_hits,
        s.domain,
        s.confirmed,
        s.model_hits,
        s.time_s,
        s.max_query_s
    );
    let _ = write!(o, "\"split_hash\":{},\"split_width\":{},", e.split_hash, e.split_width);
    let _ = write!(o, "\"paths\":{{{}}},", e.paths.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"asserts\":{{{}}},", e.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let ss: Vec<String> = e
        .samples
        .iter()
        .map(|(i, t, sc, k)| {
            format!(
                "{{\"inputs\":{},\"trace\":{},\"sched\":{:?},\"end\":{}}}",
                jarr(&i.iter().map(|(n, b)| format!("[{},{:?}]", js(n), b)).collect::<Vec<_>>()),
                jarr(&t.iter().map(|s| js(s)).collect::<Vec<_>>()),
                sc,
                js(k)
            )
        })
        .collect();
    let _ = write!(o, "\"samples\":{},", jarr(&ss));
    let _ = write!(o, "\"summaries\":{{{}}},", e.stubs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"problems\":{{{}}},", e.problems.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let vs: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":{},\"detail\":{},\"inputs\":{},\"sched\":{:?},\"stack\":{},\"notes\":{}}}",
                js(&v.label),
                js(&v.detail),
                jarr(&v.inputs.iter().map(|(n, b)| format!("[{},{:?}]", js(n), b)).collect::<Vec<_>>()),
                v.sched,
                jarr(&v.stack.iter().map(|s| js(s)).collect::<Vec<_>>()),
                jarr(&v.notes.iter().map(|s| js(s)).collect::<Vec<_>>())
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":{},", jarr(&vs));
    let _ = write!(o, "\"violation_counts\":{{{}}},", e.viol_labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"files\":{{{}}}}}",
        fns.iter()
            .map(|(f, ns)| {
                format!(
                    "{}:{{\"lines\":{},\"functions\":{}}}",
                    js(f),
                    lines.get(f).map(|l| l.len()).unwrap_or(0),
                    jarr(&ns.iter().map(|n| js(n)).collect::<Vec<_>>())
                )
            })
            .collect::<Vec<_>>()
            .join(",")
    );
    o
}
