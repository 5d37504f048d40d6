//! Work done in worker processes: running a share of the runs, minimising a failure, replaying a file.
use crate::exec;
use crate::fresh;
use crate::gen;
use crate::model::NAMES;
use crate::scenario::Scenario;
use crate::session::Viol;
use crate::shrink::{shrink, Budget};
use crate::stats;
use crate::world;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

/// Builds of the crate: 0 with the standard library, 1 without it and with debug assertions, 2 like 0 and instrumented for
/// preemption inside the library, 3 like 0 without the standard library. Of every 64 runs, 16-run block `i` is executed by
/// build `blocks(prop)[i]`; the runs of C22 by both 0 and 3.
fn blocks(prop: &str) -> [u8; 4] {
    match prop {
        "C12" => [0, 2, 2, 1],
        "C22" => [0; 4],
        "C23" => [2; 4],
        _ => [0, 0, 0, 1],
    }
}
pub fn variant_of(prop: &str, k: u64) -> u8 {
    blocks(prop)[(k / 16 % 4) as usize]
}
/// The `j`-th run of a variant.
pub fn run_no(prop: &str, variant: u8, j: u64) -> u64 {
    let variant = if prop == "C22" { 0 } else { variant };
    let b: Vec<u64> = (0..4).filter(|i| blocks(prop)[*i as usize] == variant).collect();
    let n = 16 * b.len() as u64;
    j / n * 64 + b[(j % n / 16) as usize] * 16 + j % 16
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub text: String,
}
/// Lines `known: property=<id> class=<class> match=<text in the detail>`.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(l) = l.strip_prefix("known: property=") {
            let (prop, rest) = l.split_once(" class=").expect("harness: known findings");
            let (class, text) = rest.split_once(" match=").expect("harness: known findings");
            v.push(Known { prop: prop.into(), class: class.into(), text: text.into() })
        }
    }
    v
}
impl Known {
    fn covers(&self, prop: &str, v: &Viol) -> bool {
        self.prop == prop && self.class == v.class && v.detail.contains(&self.text)
    }
}

/// Is the `done`-th run of a worker executed twice, to compare the event logs?
fn rechecked(done: u64) -> bool {
    done % 997 == 3
}

/// Executes every `of`-th run of its variant. Exit code 0, or 3 with a file describing the first violation.
#[allow(clippy::too_many_arguments)]
pub fn work(prop: &str, seed: u64, variant: u8, nth: u64, of: u64, runs: u64, dir: &str, secs: u64, known: &str) -> i32 {
    let me = format!("{}/{}{}", dir, variant, nth);
    let progress = fs::File::create(format!("{}.at", me)).expect("harness: work dir");
    let stop = format!("{}/stop", dir);
    let child = format!("{}.child", me);
    let known = load_known(known);
    let until = Instant::now() + Duration::from_secs(secs);
    let (mut done, mut events, mut rechecks, mut mismatches, mut cut) = (0u64, 0u64, 0u64, 0u64, false);
    let mut hits = vec![0u64; known.len()];
    let mut samples = vec![];
    let mut code = 0;
    let mut j = nth;
    let mut limit = u64::MAX;
    let mut answers = vec![];
    loop {
        let k = run_no(prop, variant, j);
        j += of;
        if k >= runs || k > limit {
            break;
        }
        if done % 128 == 0 {
            if let Ok(s) = fs::read_to_string(&stop) {
                limit = s.trim().parse().unwrap_or(u64::MAX)
            }
            if Instant::now() > until {
                cut = true;
                break;
            }
        }
        progress.write_all_at(&k.to_le_bytes(), 0).expect("harness: progress");
        let s = gen::scenario(prop, seed, k);
        let execute = |alone: bool| if alone { fresh::run(&s, &child) } else { exec::run(&s) };
        let alone = done < fresh::first_runs(prop);
        let o = execute(alone);
        done += 1;
        events += o.events;
        if exec::nontrivial(&s) {
            stats::scenario(s.hash())
        }
        for c in &s.clients {
            for e in &c.evs {
                if let crate::scenario::Ev::Ch(c) = e {
                    stats::cp(*c)
                }
            }
        }
        if samples.len() < 2 && nth == 0 && s.to_text().len() < 1500 && exec::nontrivial(&s) {
            samples.push(s.to_text())
        }
        if rechecked(done) {
            rechecks += 1;
            let o2 = execute(alone);
            if o2.digest != o.digest || o2.res.is_ok() != o.res.is_ok() {
                mismatches += 1
            }
        }
        if prop == "C22" {
            answers.extend(k.to_le_bytes());
            answers.extend(answer(&o).to_le_bytes());
            continue;
        }
        if let Err(v) = o.res {
            if let Some(i) = known.iter().position(|x| x.covers(prop, &v)) {
                hits[i] += 1;
                continue;
            }
            fs::write(format!("{}.fail", me), format!("{}\n{}\n{}\n", k, v.class, v.detail.replace('\n', " "))).expect("harness: fail file");
            code = 3;
            break;
        }
    }
    let [st, cp, sc] = stats::dump();
    fs::write(format!("{}.states", me), st).unwrap();
    fs::write(format!("{}.cps", me), cp).unwrap();
    fs::write(format!("{}.scen", me), sc).unwrap();
    fs::write(format!("{}.answers", me), answers).unwrap();
    let mut t = format!("runs {}\nfresh {}\nevents {}\nrechecks {}\nmismatches {}\ncut {}\nclock {}\nworst {}\n", done, done.min(fresh::first_runs(prop)), events, rechecks, mismatches, cut as u8, world::CLOCK.load(Relaxed), exec::WORST.load(Relaxed));
    for (i, n) in world::KNAMES.iter().enumerate() {
        t += &format!("{} {}\n", n, world::COUNTS[i].load(Relaxed));
    }
    for (i, h) in hits.iter().enumerate() {
        t += &format!("known{} {}\n", i, h);
    }
    for s in samples {
        t += &format!("sample {}\n", s.replace('\n', " | "));
    }
    fs::write(format!("{}.stat", me), t).unwrap();
    code
}

/// What C22 compares between two builds: everything observed, and how it ended.
fn answer(o: &exec::Outcome) -> u64 {
    let end = o.res.as_ref().err().map_or(0, |v| v.class.bytes().fold(7u64, |a, b| crate::rng::mix(a ^ b as u64)));
    o.digest ^ end
}

/// Executes the scenarios of a file and prints the answers.
pub fn answers(file: &str) -> i32 {
    let text = fs::read_to_string(file).expect("harness: scenario file");
    let mut a = 0;
    for s in &Scenario::parse_all(&text).expect("harness: scenario file") {
        a = crate::rng::mix(a ^ answer(&exec::run(s)))
    }
    println!("{:016x}", a);
    0
}
/// Do two builds answer differently?
fn differ(file: &str, bins: [&str; 2]) -> bool {
    let mut cs: Vec<_> = bins.iter().map(|b| Command::new(b).args(["answers", file]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: child")).collect();
    let end = Instant::now() + Duration::from_secs(60);
    let mut got = vec![];
    for c in cs.iter_mut() {
        got.push(loop {
            if let Some(st) = c.try_wait().expect("harness: wait") {
                let mut out = String::new();
                use std::io::Read;
                let _ = c.stdout.take().unwrap().read_to_string(&mut out);
                break if st.success() { out } else { "crash".into() };
            }
            if Instant::now() > end {
                let _ = c.kill();
                let _ = c.wait();
                break "hang".into();
            }
            std::thread::sleep(Duration::from_millis(1));
        })
    }
    got[0] != got[1]
}
const DIFFERS: &str = "the build with the standard library and the build without it answer differently";

/// C22: minimises run `index`, to which two builds answer differently, and writes the replay file. If it takes earlier runs
/// of the same worker (the `nth` of `of`), those are kept.
pub fn minimise2(seed: u64, nth: u64, of: u64, index: u64, out: &str, secs: u64, bins: [&str; 2]) -> i32 {
    let prop = "C22";
    let tmp = format!("{}.tmp", out);
    let mut b = Budget { until: Instant::now() + Duration::from_secs(secs), tries: 60_000 };
    let fails = |v: &[Scenario]| {
        fs::write(&tmp, v.iter().map(|s| s.to_text()).collect::<String>()).expect("harness: replay dir");
        differ(&tmp, bins)
    };
    let mut v = vec![gen::scenario(prop, seed, index)];
    if fails(&v) {
        v = vec![shrink(&v[0], &mut b, &mut |s| fails(std::slice::from_ref(s)))];
    } else {
        let mine: Vec<u64> = (0..).map(|j| run_no(prop, 0, nth + j * of)).take_while(|k| *k <= index).collect();
        let mut n = 64;
        while Instant::now() < b.until {
            let w: Vec<Scenario> = mine[mine.len().saturating_sub(n)..].iter().map(|k| gen::scenario(prop, seed, *k)).collect();
            if fails(&w) {
                v = w;
                break;
            }
            if n > mine.len() {
                break;
            }
            n *= 4
        }
    }
    let _ = fs::remove_file(&tmp);
    let e = Viol { class: "builds-differ".into(), detail: DIFFERS.into() };
    fs::write(out, replay_text(prop, seed, index, &e, &v, 0)).expect("harness: replay dir");
    0
}
/// C22: replays a file with two builds and shows where their event logs part.
pub fn replay2(file: &str, bins: [&str; 2]) -> i32 {
    if !differ(file, bins) {
        println!("not reproduced");
        return 0;
    }
    let log = |b: &str| Command::new(b).args(["replay", file]).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    let (a, b) = (log(bins[0]), log(bins[1]));
    println!("VIOLATION property=C22 replay={}", file);
    println!("  class builds-differ\n  {}", DIFFERS);
    let (mut x, mut y) = (a.lines(), b.lines());
    for _ in 0..100_000 {
        match (x.next(), y.next()) {
            (None, None) => break,
            (p, q) if p != q => {
                println!("  with std:    {}\n  without std: {}", p.unwrap_or("(log ends)"), q.unwrap_or("(log ends)"));
                break;
            }
            _ => (),
        }
    }
    1
}

pub fn external(class: &str) -> bool {
    class == "hang" || class == "crash"
}

/// Runs one scenario file in a child process: None if it ends well, else "crash", "hang" or the class of violation.
fn in_child(file: &str, secs: u64) -> Option<String> {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["execute", file]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("harness: child");
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        if let Some(st) = c.try_wait().expect("harness: wait") {
            let mut out = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            return match st.code() {
                Some(0) => None,
                Some(3) => Some(out.trim().to_string()),
                _ => Some("crash".into()),
            };
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            return Some("hang".into());
        }
        std::thread::sleep(Duration::from_millis(if secs > 3 { 5 } else { 2 }));
    }
}

/// Executes the scenarios of a file; exit code 3 and the class of the last one's violation.
pub fn execute(file: &str) -> i32 {
    let text = fs::read_to_string(file).expect("harness: scenario file");
    let v = Scenario::parse_all(&text).expect("harness: scenario file");
    let mut last = Ok(());
    for s in &v {
        last = exec::run(s).res
    }
    match last {
        Ok(()) => 0,
        Err(v) => {
            println!("{}", v.class);
            3
        }
    }
}

fn describe(s: &Scenario) -> String {
    let mut t = String::new();
    for (i, c) in s.clients.iter().enumerate() {
        let st: Vec<&str> = c.stages.iter().map(|x| NAMES[*x as usize]).collect();
        t += &format!("# client {}: {} over {:?}\n", i, st.join(" then "), c.text().iter().take(200).collect::<String>());
    }
    t
}

/// The text of a replay file. The digest covers the whole event log of the last scenario.
fn replay_text(prop: &str, seed: u64, index: u64, v: &Viol, body: &[Scenario], digest: u64) -> String {
    let mut t = format!(
        "# replay with: bash /verif/replay.sh FILE\nproperty {}\nvariant {}\norigin seed={} run={}\nclass {}\ndetail {}\ndigest {:016x}\n",
        prop,
        variant_of(prop, index),
        seed,
        index,
        v.class,
        v.detail.replace('\n', " "),
        digest
    );
    for s in body {
        t += &describe(s);
        t += &s.to_text();
    }
    t
}

/// Minimises run `index`, which failed with `class`, and writes the replay file.
pub fn minimise(prop: &str, seed: u64, index: u64, class: &str, out: &str, secs: u64) -> i32 {
    let s = gen::scenario(prop, seed, index);
    let tmp = format!("{}.tmp", out);
    let mut class = class.to_string();
    if class == "hang" && prop == "C23" {
        // Given more time it may end after all, with a violation of its own.
        fs::write(&tmp, s.to_text()).expect("harness: replay dir");
        if let Some(c) = in_child(&tmp, 80) {
            class = c
        }
    }
    let class = class.as_str();
    let mut b = Budget { until: Instant::now() + Duration::from_secs(secs), tries: 60_000 };
    if external(class) {
        let limit = if class == "hang" { 3 } else { 10 };
        let mut fails = |s: &Scenario| {
            fs::write(&tmp, s.to_text()).expect("harness: replay dir");
            in_child(&tmp, limit).as_deref() == Some(class)
        };
        let best = if fails(&s) { shrink(&s, &mut b, &mut fails) } else { s };
        let _ = fs::remove_file(&tmp);
        let v = Viol { class: class.into(), detail: format!("the process executing this scenario ends in a {}", class) };
        fs::write(out, replay_text(prop, seed, index, &v, &[best], 0)).expect("harness: replay dir");
        return 0;
    }
    // Quickly, all attempts in one process; and if that does not carry over to a process of its own, each in one.
    let same = |s: &Scenario| matches!(exec::run(s).res, Err(v) if v.class == class);
    let alone = |s: &Scenario| fresh::in_fork(|| same(s) as i32) == Some(1);
    let mut best = s;
    fresh::in_fork(|| {
        if same(&best) {
            fs::write(&tmp, shrink(&best, &mut b, &mut |s| same(s)).to_text()).expect("harness: replay dir")
        }
        0
    });
    let quick = fs::read_to_string(&tmp).ok().and_then(|t| Scenario::parse_all(&t)).and_then(|v| v.into_iter().next());
    let _ = fs::remove_file(&tmp);
    match quick {
        Some(q) if alone(&q) => best = q,
        _ if alone(&best) => {
            b.until = Instant::now() + Duration::from_secs(secs);
            best = shrink(&best, &mut b, &mut |s| alone(s))
        }
        _ => (),
    }
    world::TRACE_ON.store(true, Relaxed);
    let o = exec::run(&best);
    let trace = world::take_trace();
    let v = o.res.err().unwrap_or(Viol { class: class.into(), detail: "seen once; not in isolation".into() });
    let mut t = replay_text(prop, seed, index, &v, &[best], o.digest);
    t += "# event log (time, thread, event):\n";
    for l in trace.iter().take(400) {
        t += &format!("# {}\n", l);
    }
    fs::write(out, t).expect("harness: replay dir");
    0
}

/// A violation that needs earlier runs of the same process: executes the worker's runs `from..=to` and, if the last one
/// fails with `class`, writes them as a replay file. Exit code 3 if it does.
#[allow(clippy::too_many_arguments)]
pub fn history(prop: &str, seed: u64, variant: u8, nth: u64, of: u64, from: u64, to: u64, class: &str, out: &str) -> i32 {
    let mut v = vec![];
    let mut j = nth;
    let mut done = 0;
    loop {
        let k = run_no(prop, variant, j);
        j += of;
        done += 1;
        if k > to {
            break;
        }
        if k >= from && (k == to || done > fresh::first_runs(prop)) {
            v.push(gen::scenario(prop, seed, k));
            if rechecked(done) && k < to {
                v.push(gen::scenario(prop, seed, k))
            }
        }
    }
    let mut last = None;
    for s in &v {
        last = Some(exec::run(s))
    }
    let last = match last {
        Some(o) if matches!(&o.res, Err(e) if e.class == class) => o,
        _ => return 0,
    };
    let e = last.res.err().unwrap();
    // Leave out earlier runs as long as the last one still fails, each attempt in a process of its own.
    let tmp = format!("{}.tmp", out);
    let end = Instant::now() + Duration::from_secs(60);
    let fails = |v: &[Scenario]| {
        let t: String = v.iter().map(|s| s.to_text()).collect();
        fs::write(&tmp, t).expect("harness: replay dir");
        in_child(&tmp, 60).as_deref() == Some(class)
    };
    let mut digest = last.digest;
    if fails(&v) {
        let mut size = v.len() / 2;
        while size > 0 {
            let mut i = 0;
            while i + 1 < v.len() && Instant::now() < end {
                let mut w = v.clone();
                w.drain(i..(i + size).min(v.len() - 1));
                if fails(&w) {
                    v = w
                } else {
                    i += size
                }
            }
            size /= 2;
        }
        digest = 0; // of the shorter history: not known here
    }
    let _ = fs::remove_file(&tmp);
    fs::write(out, replay_text(prop, seed, to, &e, &v, digest)).expect("harness: replay dir");
    3
}

/// Replays a file in this process (or, for a hang or crash, in a child). Exit code 1 if the violation is reproduced.
pub fn replay(file: &str) -> i32 {
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("harness: {}: {}", file, e);
            return 2;
        }
    };
    let head = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (prop, class, want) = (head("property "), head("class "), head("digest "));
    if external(&class) {
        return match in_child(file, if class == "hang" { 20 } else { 60 }) {
            Some(c) => {
                println!("VIOLATION property={} replay={}", prop, file);
                println!("  class {}", c);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    let v = Scenario::parse_all(&text).expect("harness: replay file");
    let mut last = None;
    let n = v.len();
    for (i, s) in v.iter().enumerate() {
        world::TRACE_ON.store(i + 1 == n, Relaxed);
        last = Some(exec::run(s));
    }
    let o = match last {
        Some(o) => o,
        None => return 2,
    };
    let out = std::io::stdout();
    let mut out = out.lock();
    for l in world::take_trace().iter().take(2000) {
        let _ = writeln!(out, "{}", l);
    }
    match o.res {
        Err(e) => {
            let _ = writeln!(out, "VIOLATION property={} replay={}", prop, file);
            let _ = writeln!(out, "  class {}\n  {}", e.class, e.detail);
            let d = format!("{:016x}", o.digest);
            let _ = writeln!(out, "  event log {} ({})", d, if d == want { "identical to the recorded one" } else if want == "0000000000000000" { "none recorded" } else { "differs from the recorded one" });
            if e.class == class {
                1
            } else {
                4
            }
        }
        Ok(()) => {
            let _ = writeln!(out, "not reproduced");
            0
        }
    }
}

