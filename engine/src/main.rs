mod exec;
mod expr;
mod ll;
mod solver;

use exec::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn witness(w: &Witness) -> String {
    let list = |v: &[u128]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let bytes = w
        .bytes
        .iter()
        .map(|(t, p, b)| format!("[{t},{p},{b}]"))
        .collect::<Vec<_>>()
        .join(",");
    format!(
        "{{\"kind\":{},\"id\":{},\"vars\":[{}],\"bytes\":[{}],\"trace\":[{}]}}",
        json_str(&w.kind),
        w.id,
        list(&w.vars),
        bytes,
        list(&w.trace)
    )
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut name = String::new();
    let mut out = String::new();
    let mut params = HashMap::new();
    let mut solver: Vec<String> = vec!["z3-new".into(), "-in".into(), "-t:120000".into()];
    let mut cross: Option<Vec<String>> = None;
    let mut deadline = 600.0;
    let mut samples = 8;
    let mut seed = 1;
    let mut verbose = false;
    let mut shard = 0;
    let mut shards = 1;
    let mut max_instrs = 20_000_000;
    let mut log = None;
    let mut i = 0;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--fn" => name = v(),
            "--out" => out = v(),
            "--param" => {
                let t = v();
                let (a, b) = t.split_once('=').unwrap();
                params.insert(a.parse().unwrap(), b.parse().unwrap());
            }
            "--solver" => solver = v().split_whitespace().map(|s| s.to_string()).collect(),
            "--cross" => cross = Some(v().split_whitespace().map(|s| s.to_string()).collect()),
            "--deadline" => deadline = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--max-instrs" => max_instrs = v().parse().unwrap(),
            "--log" => log = Some(v()),
            "--shard" => {
                let v = v();
                let (a, b) = v.split_once('/').expect("a shard");
                shard = a.parse().unwrap();
                shards = b.parse().unwrap();
            }
            "--verbose" => {
                verbose = true;
                i += 1;
                continue;
            }
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    let start = Instant::now();
    let m = match ll::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    let mut s = solver::Solver::new(&solver).expect("solver");
    if let Some(l) = log {
        s.log = Some(std::fs::File::create(l).unwrap());
    }
    let opts = Options {
        params,
        deadline: Duration::from_secs_f64(deadline),
        max_instrs,
        samples,
        seed,
        verbose,
        shard,
        shards,
    };
    let mut x = Exec::new(&m, s, opts);
    if cross.is_some() {
        x.cross = Some(vec![]);
    }
    let result = x.run(&name);
    if verbose {
        let mut places: Vec<_> = x.places.iter().collect();
        places.sort_by_key(|p| std::cmp::Reverse(*p.1));
        for ((name, block), count) in places.iter().take(20) {
            eprintln!("{count} {name} {block}");
        }
    }
    let mut crossed = 0;
    let mut disagreements = 0;
    if let (Some(c), Some(q)) = (cross, x.cross.take()) {
        // The same queries, another solver.
        if let Ok(mut other) = solver::Solver::new(&c) {
            let start = std::time::Instant::now();
            for asserts in q {
                if start.elapsed().as_secs() > 60 {
                    break;
                }
                let a = x.solver.check(&x.pool, &asserts, false, &[]);
                let b = other.check(&x.pool, &asserts, false, &[]);
                if let (Ok(a), Ok(b)) = (a, b) {
                    crossed += 1;
                    if a.0 != b.0 {
                        disagreements += 1;
                    }
                }
            }
        }
    }
    let (status, detail, w) = match &result {
        Ok(None) => ("ok", String::new(), None),
        Ok(Some(w)) => ("violation", w.kind.clone(), Some(w.clone())),
        Err(e) => (if e.contains("timeout with") { "timeout" } else { "error" }, e.clone(), None),
    };
    let st = &x.stats;
    let mut funcs: Vec<String> = vec![];
    let (mut covered, mut total) = (0usize, 0usize);
    for (n, b) in &x.blocks {
        let c = b.iter().filter(|x| **x).count();
        if c > 0 || n.as_ref() == name {
            covered += c;
            total += b.len();
            funcs.push(n.to_string());
        }
    }
    funcs.sort();
    let map = |m: &std::collections::BTreeMap<u32, u64>| {
        m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")
    };
    let reached =
        st.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",");
    let mut o = String::from("{\n");
    o += &format!("\"harness\":{},\n", json_str(&name));
    o += &format!("\"status\":{},\n\"detail\":{},\n", json_str(status), json_str(&detail));
    o += &format!("\"wall_s\":{:.3},\n", start.elapsed().as_secs_f64());
    o += &format!(
        "\"paths\":{},\"forks\":{},\"instructions\":{},\"assumed_away\":{},\"infeasible\":{},\n",
        st.paths, st.forks, st.instrs, st.assumed_away, st.infeasible
    );
    o += &format!("\"bounded\":{{{}}},\"reached\":{{{}}},\n", map(&st.bounded), reached);
    o += &format!(
        "\"checks\":{},\"checks_folded\":{},\"checks_solved\":{},\"max_pc\":{},\"max_pending\":{},\n",
        st.checks, st.checks_folded, st.checks_solved, st.max_pc, st.max_pending
    );
    o += &format!(
        "\"branch_folded\":{},\"branch_fresh\":{},\"branch_queries\":{},\"branch_cached\":{},\"final_queries\":{},\"concretisations\":{},\"merged\":{},\n",
        st.branch_folded,
        st.branch_fresh,
        st.branch_queries,
        st.branch_cached,
        st.final_queries,
        st.concretisations,
        st.merged
    );
    o += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\n",
        x.solver.queries,
        x.solver.sat,
        x.solver.unsat,
        x.solver.nanos as f64 / 1e9,
        x.solver.max_nanos as f64 / 1e9
    );
    o += &format!("\"crossed\":{crossed},\"disagreements\":{disagreements},\n");
    o += &format!("\"expressions\":{},\n", x.pool.infos.len());
    o += &format!("\"blocks_covered\":{covered},\"blocks_total\":{total},\n");
    o += &format!(
        "\"functions\":[{}],\n",
        funcs.iter().map(|f| json_str(f)).collect::<Vec<_>>().join(",")
    );
    o += &format!(
        "\"samples\":[{}],\n",
        x.samples.iter().map(witness).collect::<Vec<_>>().join(",\n")
    );
    o += &format!("\"witness\":{}\n}}\n", w.as_ref().map_or("null".into(), witness));
    if out.is_empty() {
        println!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        "timeout" => 4,
        _ => 2,
    });
}
