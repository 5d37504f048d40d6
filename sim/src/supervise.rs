//! One check: worker processes, hang and crash detection, verdict, evidence.
use crate::worker::{load_known, variant_of};
use crate::world::KNAMES;
use std::collections::BTreeMap;
use std::fs;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Worker {
    variant: u8,
    nth: u64,
    of: u64,
    child: Child,
    code: Option<i32>,
    at: u64,
    since: Instant,
    started: bool,
}
struct Failure {
    index: u64,
    class: String,
    detail: String,
    worker: (u8, u64, u64),
}

/// A run takes microseconds to a second or so; one that takes this many seconds is taken not to end.
pub const HANG: u64 = 40;

/// (quick runs, thorough runs)
fn budget(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C01" | "C02" | "C04" | "C05" | "C06" | "C17" => 5_000_000,
        "C03" | "C14" => 4_000_000,
        "C07" | "C11" => 3_000_000,
        "C08" | "C18" => 2_000_000,
        "C09" | "C15" => 1_500_000,
        "C13" => 1_000_000,
        "C10" => 200_000,
        "C12" => 240_000,
        "C22" => 500_000,
        "C23" => 40_000,
        _ => 60_000, // C16
    };
    (q, q * 20)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}

pub fn check(prop: &str, bins: [&str; 4], verif: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let (q, t) = budget(prop);
    let runs = env("UNSIM_RUNS").unwrap_or(if thorough { t } else { q });
    let secs = env("UNSIM_SECS").unwrap_or(if thorough { 3000 } else { 300 });
    let cores = env("UNSIM_WORKERS").unwrap_or(std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).max(2);
    let parts: Vec<(u8, u64)> = match prop {
        "C12" => vec![(0, cores / 4), (1, cores / 4), (2, cores / 2)],
        "C22" => vec![(0, cores / 2), (3, cores / 2)],
        "C23" => vec![(2, cores)],
        _ => vec![(0, cores - cores / 4), (1, cores / 4)],
    };
    let dir = format!("{}/work/{}", verif, prop);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("harness: work dir");
    fs::create_dir_all(format!("{}/replays", verif)).expect("harness: replay dir");
    fs::create_dir_all(format!("{}/evidence", verif)).expect("harness: evidence dir");
    let known_file = format!("{}/known_findings.txt", verif);
    let mut ws: Vec<Worker> = vec![];
    for (variant, of) in parts.into_iter().map(|(v, n)| (v, n.max(1))) {
        for nth in 0..of {
            let bin = bins[variant as usize];
            let child = Command::new(bin)
                .args(["worker", prop, &seed.to_string(), &variant.to_string(), &nth.to_string(), &of.to_string(), &runs.to_string(), &dir, &secs.to_string(), &known_file])
                .stdout(Stdio::null())
                .stderr(fs::File::create(format!("{}/{}{}.err", dir, variant, nth)).expect("harness: work dir"))
                .spawn()
                .expect("harness: worker");
            ws.push(Worker { variant, nth, of, child, code: None, at: u64::MAX, since: Instant::now(), started: false });
        }
    }
    let mut fails: Vec<Failure> = vec![];
    let mut compared = 0;
    let mut harness: Option<String> = None;
    loop {
        let mut open = 0;
        for w in ws.iter_mut().filter(|w| w.code.is_none()) {
            let me = format!("{}/{}{}", dir, w.variant, w.nth);
            let at = fs::read(format!("{}.at", me)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
            let id = (w.variant, w.nth, w.of);
            if let Some(st) = w.child.try_wait().expect("harness: wait") {
                let code = st.code();
                w.code = Some(code.unwrap_or(-1));
                match code {
                    Some(0) => (),
                    Some(3) => {
                        let f = fs::read_to_string(format!("{}.fail", me)).expect("harness: fail file");
                        let mut l = f.lines();
                        fails.push(Failure { index: l.next().unwrap().parse().unwrap(), class: l.next().unwrap().into(), detail: l.next().unwrap_or("").into(), worker: id });
                    }
                    _ => {
                        let err = fs::read_to_string(format!("{}.err", me)).unwrap_or_default();
                        if err.contains("harness:") || at.is_none() {
                            harness = Some(err);
                        } else {
                            fails.push(Failure { index: at.unwrap(), class: "crash".into(), detail: format!("the process ended with {:?}: {}", st, err.lines().last().unwrap_or("")), worker: id });
                        }
                    }
                }
                if let Some(m) = fails.iter().map(|f| f.index).min() {
                    let _ = fs::write(format!("{}/stop.new", dir), m.to_string());
                    let _ = fs::rename(format!("{}/stop.new", dir), format!("{}/stop", dir));
                }
                continue;
            }
            open += 1;
            if at.is_some() && at != Some(w.at) || !w.started && at.is_none() {
                w.started = at.is_some();
                w.at = at.unwrap_or(u64::MAX);
                w.since = Instant::now();
            } else if w.since.elapsed() > Duration::from_secs(HANG) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.code = Some(-2);
                fails.push(Failure { index: w.at, class: "hang".into(), detail: format!("the library did not return within {} s", HANG), worker: id });
                let _ = fs::write(format!("{}/stop", dir), w.at.to_string());
            }
        }
        if open == 0 || harness.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if let Some(e) = harness {
        for w in ws.iter_mut() {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        eprintln!("{}", e);
        eprintln!("error of the check itself");
        return 2;
    }
    if prop == "C22" {
        // What both builds do alike, even if it is wrong, is other properties' business.
        let other = |f: &Failure| if f.worker.0 == 0 { 3 } else { 0 };
        let alike: Vec<(u64, String)> = fails.iter().filter(|f| fails.iter().any(|g| g.worker.0 == other(f) && g.index == f.index && g.class == f.class)).map(|f| (f.index, f.class.clone())).collect();
        fails.retain(|f| !alike.contains(&(f.index, f.class.clone())));
        for w in ws.iter().filter(|w| w.variant == 0) {
            let read = |v: u8| fs::read(format!("{}/{}{}.answers", dir, v, w.nth)).unwrap_or_default();
            let (a, b) = (read(0), read(3));
            if let Some((x, _)) = a.chunks(16).zip(b.chunks(16)).find(|(x, y)| x != y) {
                let index = u64::from_le_bytes(x[..8].try_into().unwrap());
                fails.push(Failure { index, class: "builds-differ".into(), detail: "the build with the standard library and the build without it answer differently".into(), worker: (0, w.nth, w.of) });
            }
            compared += a.len().min(b.len()) as u64 / 16;
        }
    }
    let searched = t0.elapsed().as_secs_f64();
    fails.sort_by_key(|f| f.index);
    let mut code = 0;
    let mut replay = String::new();
    if let Some(f) = fails.first() {
        code = 1;
        replay = format!("{}/replays/{}-{}-{}.txt", verif, prop, seed, f.index);
        let bin = bins[variant_of(prop, f.index) as usize];
        let brief = env("UNSIM_BRIEF").is_some(); // for trying out many changes: neither minimised nor replayed
        let run = |args: &[&str], secs: u64| -> Option<i32> {
            if brief {
                return Some(1);
            }
            let mut c = Command::new(bin).args(args).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
            let end = Instant::now() + Duration::from_secs(secs);
            loop {
                if let Some(s) = c.try_wait().ok()? {
                    return s.code();
                }
                if Instant::now() > end {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        };
        let (sd, ix) = (seed.to_string(), f.index.to_string());
        let shrink_secs = if thorough { 120 } else { 40 };
        let two = [bins[0], bins[3]];
        if prop == "C22" {
            run(&["minimise2", &sd, &f.worker.1.to_string(), &f.worker.2.to_string(), &ix, &replay, &shrink_secs.to_string(), two[0], two[1]], shrink_secs + 130);
        } else {
            run(&["minimise", prop, &sd, &ix, &f.class, &replay, &shrink_secs.to_string()], 2 * shrink_secs + 150);
        }
        let mut ok = if prop == "C22" { run(&["replay2", &replay, two[0], two[1]], 130) } else { run(&["replay", &replay], 90) } == Some(1);
        if !ok && prop != "C22" && !crate::worker::external(&f.class) {
            // It needs what earlier runs left in the process: find how far back.
            let (v, nth, of) = f.worker;
            let mut span = 64 * of;
            let end = Instant::now() + Duration::from_secs(200);
            while Instant::now() < end {
                let from = f.index.saturating_sub(span);
                if run(&["history", prop, &sd, &v.to_string(), &nth.to_string(), &of.to_string(), &from.to_string(), &ix, &f.class, &replay], 150) == Some(3) {
                    ok = run(&["replay", &replay], 150) == Some(1);
                    break;
                }
                if from == 0 {
                    break;
                }
                span *= 4;
            }
        }
        println!("VIOLATION property={} replay={}", prop, replay);
        println!("  class {}: {}", f.class, f.detail);
        println!("  seed {} run {} variant {}; {}", seed, f.index, f.worker.0, if ok { "replayed in a fresh process" } else { "NOT reproduced in a fresh process" });
        if let Ok(t) = fs::read_to_string(&replay) {
            for l in t.lines().filter(|l| !l.starts_with('#')).take(14) {
                println!("  | {}", l.chars().take(300).collect::<String>());
            }
        }
    }
    // Evidence.
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let (mut states, mut cps, mut scen) = (vec![0u64; 0], vec![0u64; 0], vec![]);
    let mut per_variant = [0u64; 4];
    let mut worst = 0;
    for w in &ws {
        let me = format!("{}/{}{}", dir, w.variant, w.nth);
        for l in fs::read_to_string(format!("{}.stat", me)).unwrap_or_default().lines() {
            match l.split_once(' ') {
                Some(("sample", s)) => samples.push(s.to_string()),
                Some((k, v)) => {
                    let v: u64 = v.parse().unwrap_or(0);
                    if k == "worst" {
                        worst = worst.max(v)
                    }
                    if k == "runs" {
                        per_variant[w.variant as usize] += v
                    }
                    *sum.entry(k.into()).or_default() += v
                }
                None => (),
            }
        }
        let words = |ext: &str| -> Vec<u64> { fs::read(format!("{}.{}", me, ext)).unwrap_or_default().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect() };
        for (acc, ext) in [(&mut states, "states"), (&mut cps, "cps")] {
            let v = words(ext);
            if acc.len() < v.len() {
                acc.resize(v.len(), 0)
            }
            for (a, b) in acc.iter_mut().zip(v) {
                *a |= b
            }
        }
        scen.extend(words("scen"));
    }
    scen.sort_unstable();
    scen.dedup();
    let ones = |v: &[u64]| v.iter().map(|x| x.count_ones() as u64).sum::<u64>();
    let g = |k: &str| sum.get(k).copied().unwrap_or(0);
    let done = g("runs");
    for (i, k) in load_known(&known_file).iter().enumerate() {
        if k.prop == prop && g(&format!("known{}", i)) > 0 {
            println!("KNOWN-FINDING: property={} {} {}", prop, k.class, k.text);
        }
    }
    let list = |pre: bool| {
        KNAMES.iter().filter(|n| n.starts_with("fault_") == pre).filter(|n| g(n) > 0).map(|n| format!("\"{}\": {}", n.trim_start_matches("fault_"), g(n))).collect::<Vec<_>>().join(", ")
    };
    samples.truncate(3);
    let samples = samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(1500).collect::<String>()))).collect::<Vec<_>>().join(", ");
    let wall = t0.elapsed().as_secs_f64();
    let rate = done as f64 / searched.max(0.001) * 3600.0;
    let json = format!(
        r#"{{
 "property": "{prop}", "tier": "{tier}", "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {done},
  "distinct_nontrivial": {dn},
  "rule": "{rule}",
  "distinct_counted_among": "the first 2000000 non-trivial scenarios of each worker",
  "samples": [{samples}],
  "runs_planned": {runs}, "stopped_by_time_limit": {cut}, "runs_per_hour": {rate:.0}, "seeds_per_hour": {rate:.0},
  "runs_std_build": {ra}, "runs_no_std_build_with_debug_assertions": {rb}, "runs_instrumented_build": {rc}, "runs_no_std_build": {rd},
  "runs_in_a_process_of_their_own": {fresh}, "runs_compared_between_builds": {compared}, "highest_share_of_allowed_steps_used": {worst:.4},
  "simulated_seconds": {sim:.3}, "events_logged": {events},
  "faults_injected": {{ {faults} }},
  "activity": {{ {activity} }},
  "distinct_abstract_states": {states},
  "state_measure": "bits of a 2^25-bit set, hashed from (stages, classes of the last 3 characters asked for, read-ahead lag, kind of operation, live streams, distance to the end) or, for checks and jobs, (check, answer, class, worst answer so far) / (form, boundary)",
  "distinct_code_points_delivered": {cps},
  "determinism_rechecks": {re}, "determinism_mismatches": {mm},
  "workers": {workers},
  "real_components": "the whole crate as built from /repo's working tree: adapters, checks, tables, lookups (two builds), tinyvec, core/alloc",
  "simulated_components": "character source, fmt::Write sink, callbacks, allocator policy, choice of running thread, consumer, stored input and output, clock"
 }},
 "assumptions": ["the reference model (sim/src/model.rs) and its data (sim/data/ucd16.txt) state UAX #15 and Unicode 16.0.0 correctly", "thread switches happen at seam crossings (source, sink, callback, operation boundaries) and, in the instrumented build, between basic blocks, loads and stores of the crate, under sequentially consistent memory"],
 "wall_s": {wall:.2}, "violations": {viol}
}}
"#,
        tier = if thorough { "thorough" } else { "quick" },
        dn = scen.len(),
        rule = "one scenario per run, drawn from (seed, property, run index); non-trivial: it contains a query, an environment event, or a character that decomposes, composes, combines or has a variant; distinct by hash of the whole scenario",
        cut = g("cut") > 0,
        ra = per_variant[0],
        rb = per_variant[1],
        rc = per_variant[2],
        rd = per_variant[3],
        fresh = g("fresh"),
        worst = worst as f64 / 1e6,
        sim = g("clock") as f64 / 1e6,
        events = g("events"),
        faults = list(true),
        activity = list(false),
        states = ones(&states),
        cps = ones(&cps),
        re = g("rechecks"),
        mm = g("mismatches"),
        workers = ws.len(),
        viol = fails.len(),
    );
    fs::write(format!("{}/evidence/{}.json", verif, prop), json).expect("harness: evidence");
    let _ = fs::remove_dir_all(&dir);
    println!("{} {}: {} runs ({:.1} M/h), {} distinct, {} states, faults {{{}}}, recheck mismatches {}, {:.1} s{}", prop, if code == 0 { "held" } else { "VIOLATED" }, done, rate / 1e6, scen.len(), ones(&states), list(true), g("mismatches"), wall, if g("cut") > 0 { " (stopped by time limit)" } else { "" });
    let _ = replay;
    code
}
