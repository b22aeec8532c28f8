//! One worker: runs its share of a property's cases (or a single case) and reports what it observed.
use mon::ctx::*;
use mon::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[global_allocator]
static ALLOC: p_mem::Counting = p_mem::Counting;

enum Verdict {
    Ok,
    Violation(String),
    /// the harness itself could not go on
    Broken(String),
}

fn run_case(c: &mut Ctx, f: CaseFn) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(()) => Verdict::Ok,
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                Verdict::Violation(v.0.clone())
            } else {
                let m = payload_str(&p);
                // a panic raised inside the code under test during harness bookkeeping
                if m.contains("[/repo/") || m.contains("/repo/src/") {
                    Verdict::Violation(format!("panic in the code under test: {m}"))
                } else {
                    Verdict::Broken(m)
                }
            }
        }
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}
fn num(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).map(|s| s.parse().expect(k)).unwrap_or(d)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        let tier = if args.get(1).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
        let mut o = serde_json::Map::new();
        for p in PROPS {
            let st: Vec<_> = streams_of(p, tier).iter().map(|s| serde_json::json!({"id": s.id, "name": s.name, "count": s.count, "complete": s.complete})).collect();
            o.insert(p.id.into(), serde_json::json!({"rule": p.rule, "streams": st}));
        }
        println!("{}", serde_json::Value::Object(o));
        return;
    }
    #[cfg(feature = "full")]
    if cmd == "work" {
        if !p_work::counted() {
            eprintln!("not running under valgrind");
            std::process::exit(2);
        }
        let (i, n) = arg(&args, "--shard").map(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()).unwrap_or((0, 1));
        install_hook();
        p_work::run(num(&args, "--seed", 1), i, n, num(&args, "--from", 0) as usize, arg(&args, "--only").as_deref(), num(&args, "--scale", 1) as u32);
        return;
    }
    if cmd == "cold" {
        install_hook();
        if num(&args, "--backwards", 0) == 1 {
            let l = p_mix::pure_list(num(&args, "--seed", 1), true);
            println!("{}", l.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
            return;
        }
        match p_mix::cold(num(&args, "--seed", 1)) {
            Ok(n) => println!("{n}"),
            Err(m) => {
                println!("{m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let p = prop(args.get(1).map(|s| s.as_str()).unwrap_or("")).expect("unknown property");
    let seed = num(&args, "--seed", 1);
    let tier = if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    install_hook();
    let mut c = Ctx::new(p.id, seed, 0, 0);
    c.open_known = arg(&args, "--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    match cmd {
        "case" => {
            c.verbose = args.iter().any(|a| a == "--verbose");
            c.start(seed, num(&args, "--stream", 2) as u32, num(&args, "--index", 0));
            let code = match run_case(&mut c, p.f) {
                Verdict::Ok => {
                    println!("OK digest={:016x}", c.digest);
                    0
                }
                Verdict::Violation(m) => {
                    println!("CASE-VIOLATION {m}");
                    1
                }
                Verdict::Broken(m) => {
                    println!("CASE-BROKEN {m}");
                    3
                }
            };
            for (k, (_, m)) in &c.known {
                println!("CASE-KNOWN {k} {m}");
            }
            std::process::exit(code);
        }
        "run" => {
            let (i, n) = arg(&args, "--shard").map(|s| s.split_once('/').map(|(a, b)| (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap())).unwrap()).unwrap_or((0, 1));
            let permille = num(&args, "--permille", 1000);
            let budget = num(&args, "--budget", 100_000) as f64;
            let cap = num(&args, "--cases", 0);
            let only = arg(&args, "--streams").map(|s| s.split(',').map(|x| x.parse::<u32>().unwrap()).collect::<Vec<_>>());
            let journal = arg(&args, "--journal").map(|j| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(j).unwrap());
            let mut digests = arg(&args, "--digests").map(|j| std::io::BufWriter::new(std::fs::File::create(j).unwrap()));
            let t0 = Instant::now();
            let mut bad: Option<(u32, u64, String)> = None;
            let mut broken: Option<(u32, u64, String)> = None;
            let mut cases: BTreeMap<u32, u64> = BTreeMap::new();
            let mut cut = false;
            let streams: Vec<_> = streams_of(p, tier).into_iter().filter(|st| only.as_ref().map(|o| o.contains(&st.id)).unwrap_or(true)).collect();
            let mut at = vec![i; streams.len()];
            // every workload gets its share of the time first, then what is left of them runs in order
            'all: for pass in 0..2 {
                for (si, st) in streams.iter().enumerate() {
                    let total = if permille >= 1000 { st.count } else { (st.count * permille / 1000).max(1) };
                    // at most this many cases per worker
                    let total = if cap > 0 { st.count.min(cap * n) } else { total };
                    // a reduced run takes a spread-out part of a complete enumeration
                    let stride = if total >= st.count || !st.complete { 1 } else { (st.count / total).max(1) };
                    let end = if pass == 0 { t0.elapsed().as_secs_f64() + budget / streams.len() as f64 } else { budget };
                    while at[si] < total {
                        let now = t0.elapsed().as_secs_f64();
                        if now > budget {
                            cut = true;
                            break 'all;
                        }
                        if now > end {
                            break;
                        }
                        let index = at[si] * stride;
                        if let Some(j) = &journal {
                            let _ = j.write_all_at(format!("{:>10} {:>20}\n", st.id, index).as_bytes(), 0);
                        }
                        c.start(seed, st.id, index);
                        match run_case(&mut c, p.f) {
                            Verdict::Ok => {}
                            Verdict::Violation(m) => {
                                bad = Some((st.id, index, m));
                                break 'all;
                            }
                            Verdict::Broken(m) => {
                                broken = Some((st.id, index, m));
                                break 'all;
                            }
                        }
                        *cases.entry(st.id).or_insert(0) += 1;
                        if let Some(d) = &mut digests {
                            let _ = d.write_all(&((st.id as u64) << 56 | index).to_le_bytes());
                            let _ = d.write_all(&c.digest.to_le_bytes());
                        }
                        at[si] += n;
                    }
                }
            }
            if let Some(d) = &mut digests {
                let _ = d.flush();
            }
            let mut events: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
            for ((op, wc), k) in &c.events {
                *events.entry(op.to_string()).or_default().entry(WCLASS[*wc as usize].to_string()).or_insert(0) += k;
            }
            let tri = |x: &Option<(u32, u64, String)>| x.as_ref().map(|(a, b, m)| serde_json::json!({"stream": a, "index": b, "msg": m}));
            let known: BTreeMap<_, _> = c.known.iter().map(|(k, (n, m))| (k.clone(), serde_json::json!([n, m]))).collect();
            let out = serde_json::json!({
                "evaluations": c.evaluations, "refused": c.refused, "cases": cases.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
                "events": events, "samples": c.samples, "known": known, "violation": tri(&bad), "broken": tri(&broken), "cut": cut,
                "wall_s": t0.elapsed().as_secs_f64(),
            });
            if let Some(b) = arg(&args, "--bitmap") {
                let bytes: Vec<u8> = c.bitmap.iter().flat_map(|x| x.to_le_bytes()).collect();
                std::fs::write(b, bytes).unwrap();
            }
            match arg(&args, "--out") {
                Some(o) => std::fs::write(o, out.to_string()).unwrap(),
                None => println!("{out}"),
            }
            std::process::exit(if bad.is_some() { 1 } else if broken.is_some() { 3 } else { 0 });
        }
        _ => {
            eprintln!("usage: mon run|case|list PROP ...");
            std::process::exit(2);
        }
    }
}
