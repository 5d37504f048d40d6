//! Executes a scenario: a pure function of the scenario and the code under test.
use crate::heap;
use crate::model::{self, Stage, Verdict};
use crate::queries::{self, in_form, judge_quick, lib_auth, lib_decompose, lib_fault, lib_quick, lib_run, want_decompose, FNAMES, VNAMES};
use crate::scenario::{Client, Ev, Scenario, O};
use crate::session::{show_text, viol, Flags, Res, Session};
use crate::ucd::ucd;
use crate::world::{self, call, callback_fault, count, ev, Fault, Feed, Src, K, NESTED};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use unicode_normalization::char as uc;

pub struct Outcome {
    pub res: Res,
    pub digest: u64,
    pub events: u64,
}

pub fn run(s: &Scenario) -> Outcome {
    world::begin_run();
    let sources = world::LIVE.load(Relaxed);
    let mut res = exec(s);
    if res.is_ok() {
        if let Some(n) = NESTED.lock().unwrap().take() {
            res = viol(&n.0, n.1);
        }
    }
    let (digest, events) = (world::digest(), world::events());
    if res.is_ok() && (s.prop == "C10" || s.prop == "C11") && heap::live() != 0 {
        // Something stayed allocated. A table set up on first use would not grow when the run is repeated.
        let first = heap::live();
        world::begin_run();
        let again = exec(s);
        if again.is_ok() && heap::live() != 0 {
            res = viol("memory-leak", format!("{} bytes still allocated after everything was dropped ({} when repeated)", first, heap::live()));
        }
    }
    if res.is_ok() && s.prop == "C10" && world::LIVE.load(Relaxed) != sources {
        res = viol("source-leak", format!("{} of the sources given to streams still exist after everything was dropped", world::LIVE.load(Relaxed) - sources));
    }
    heap::reset();
    Outcome { res, digest, events }
}

fn exec(s: &Scenario) -> Res {
    match s.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C07" | "C08" | "C09" => sessions(s, Flags::default()),
        "C05" => sessions(s, Flags { need: true, ..Flags::default() }),
        "C06" => sessions(s, Flags { no_repoll: true, ..Flags::default() }),
        "C10" => sessions(s, Flags { memory: true, ..Flags::default() }),
        "C11" => exhaustion(s),
        "C12" => concurrent(s),
        "C13" => verdicts(s),
        "C14" => restarts(s),
        "C15" => {
            sessions(s, Flags::default())?;
            if s.params.first() == Some(&1) {
                for c in &s.clients {
                    laws(&c.text(), c.stages[0])?
                }
            }
            Ok(())
        }
        "C16" => callbacks(s),
        "C17" => sessions(s, Flags { hints: true, ..Flags::default() }),
        "C18" => damage(s),
        "C23" => cost(s),
        p => panic!("harness: property {}", p),
    }
}

/// Every client works through its script; with several, the schedule interleaves their operations.
fn sessions(s: &Scenario, f: Flags) -> Res {
    let mut v = vec![];
    for c in &s.clients {
        if c.stages.is_empty() {
            return Ok(());
        }
        v.push(Session::new(c, f)?);
    }
    let mut ready: Vec<usize> = (0..v.len()).collect();
    let mut k = 0;
    let mut cur = 0;
    while !ready.is_empty() {
        let x = s.sched.get(k).copied().unwrap_or(0) as usize;
        k += 1;
        if x != 0 {
            cur = (cur + x) % ready.len();
        }
        cur %= ready.len();
        if !v[ready[cur]].step()? {
            v[ready[cur]].close()?;
            ready.remove(cur);
        }
    }
    Ok(())
}

fn exhaustion(s: &Scenario) -> Res {
    if s.params.first() != Some(&0) {
        heap::plan_failure(s.params.get(1).copied().unwrap_or(1), s.params.get(2).copied().unwrap_or(1));
        let r = sessions(s, Flags { alloc_faults: true, ..Flags::default() });
        heap::no_failure();
        return r;
    }
    // No heap at all, and nothing here needs it.
    heap::plan_failure(1, u64::MAX);
    let r = (|| {
        for c in &s.clients {
            if c.stages.iter().any(|s| s.normalizes()) {
                continue;
            }
            let mut c2 = c.clone();
            c2.ops.retain(|o| !matches!(o.k, O::Verdict | O::Query | O::Text | O::Partial | O::Finish));
            let mut x = Session::new(&c2, Flags::default())?;
            while x.step()? {
                count(K::HeapFree)
            }
            x.close()?;
            let t = c.text();
            for o in &c.ops {
                count(K::HeapFree);
                match o.k {
                    O::Query => queries::query(o.a, o.b)?,
                    O::Verdict => {
                        let cut = &t[..(o.b as usize).min(t.len())];
                        let kind = o.a as usize % queries::VERDICTS;
                        // An authoritative check needs no heap where the quick check decides.
                        if kind < 6 || model_quick(kind, cut) != Verdict::Maybe {
                            queries::verdict_of_text(o.a, cut)?
                        }
                    }
                    _ => (),
                }
            }
        }
        Ok(())
    })();
    heap::no_failure();
    r
}
fn model_quick(kind: usize, t: &[char]) -> Verdict {
    let form = [Stage::Nfd, Stage::Nfkd, Stage::Nfc, Stage::Nfkc, Stage::Nfd, Stage::Nfc][kind % 6];
    let q = model::quick(form, t);
    if kind % 6 >= 4 && !model::is_stream_safe(t) {
        return Verdict::No;
    }
    q
}

// ---- steps ----------------------------------------------------------------------------------------------------------

/// Highest ratio met between steps taken and steps allowed, times a million.
pub static WORST: AtomicU64 = AtomicU64::new(0);
/// Steps allowed for each character read or written by a stage, per doubling of the longest run; and per operation.
const PER_CHAR: u64 = 250;
const PER_OP: u64 = 200_000;

/// Counts steps taken inside the library, and compares with what n log r allows.
fn cost(s: &Scenario) -> Res {
    let mut allowed = 0;
    for c in &s.clients {
        let t = c.text();
        let units = |stages: &[Stage], t: &[char]| -> u64 {
            let (mut n, mut v) = (t.len(), t.to_vec());
            for st in stages {
                v = model::run(*st, &v);
                n += v.len() * 2 + 1;
            }
            n as u64
        };
        let log = (model::longest_run(&t) as f64 + 4.0).log2();
        let whole = units(&c.stages, &t);
        let mut n = whole;
        for o in &c.ops {
            match o.k {
                O::Display | O::Clone | O::Finish => n += whole,
                O::Verdict | O::Text => n += units(&[Stage::Nfkd, Stage::Nfkc], &t),
                _ => (),
            }
        }
        allowed += (n as f64 * log) as u64 * PER_CHAR + (c.ops.len() as u64 + 1) * PER_OP;
    }
    crate::preempt::meter(true);
    let r = sessions(s, Flags::default());
    let used = crate::preempt::steps();
    crate::preempt::meter(false);
    world::count_n(K::Steps, used);
    ev("steps", used, allowed);
    WORST.fetch_max((used as f64 / allowed as f64 * 1e6) as u64, Relaxed);
    if used > allowed {
        let c = &s.clients[0];
        let t = c.text();
        return viol("steps-exceeded", format!("{:?}, {:?} over {} characters (longest run {}): {} steps, {} allowed; [{}]", c.stages, c.ops, t.len(), model::longest_run(&t), used, allowed, show_text(&t)));
    }
    match r {
        // Wrong answers are other properties' business; not coming to an end is this one's.
        Err(v) if v.class != "runaway" => Ok(()),
        r => r,
    }
}

// ---- threads --------------------------------------------------------------------------------------------------------

struct Movable(Session);
// The adapters are Send (checked at run time: see `missing_traits`); the simulator's boxes hide that from the compiler.
unsafe impl Send for Movable {}

/// `entry` of a client that is lent the stream of client 0.
pub const LENT: u8 = 9;

fn concurrent(s: &Scenario) -> Res {
    for m in crate::adapters::missing_traits() {
        if !m.contains("Fused") {
            return viol("not-shareable", m.into());
        }
    }
    let mut v: Vec<Mutex<Movable>> = vec![];
    let mut lender: Option<Session> = None;
    for (i, c) in s.clients.iter().enumerate() {
        if c.stages.is_empty() {
            return Ok(());
        }
        if i == 0 && s.clients.iter().skip(1).any(|c| c.entry == LENT) {
            // Its stream comes to rest somewhere, and then several threads look at it.
            let mut x = Session::new(c, Flags::default())?;
            while !matches!(x.next_op(), Some(crate::scenario::Op { k: O::Share, .. })) && x.step()? {}
            lender = Some(x);
            continue;
        }
        let x = match &lender {
            Some(l) if c.entry == LENT => match l.lend(c) {
                Some(x) => x,
                None => continue,
            },
            _ => Session::new(c, Flags::default())?,
        };
        v.push(Mutex::new(Movable(x)));
    }
    let failed: Mutex<Option<crate::session::Viol>> = Mutex::new(None);
    let threads = (s.params.first().copied().unwrap_or(2) as usize).clamp(1, 8);
    crate::sched::run(v.len(), threads, &s.sched, s.params.get(1..).unwrap_or(&[]), &|i| {
            if failed.lock().unwrap().is_some() {
                return false;
            }
            let mut x = v[i].lock().unwrap();
            match x.0.step() {
                Ok(more) => more,
                Err(e) => {
                    let mut f = failed.lock().unwrap();
                    if f.is_none() {
                        *f = Some(e)
                    }
                    false
                }
            }
    });
    if let Some(e) = failed.lock().unwrap().take() {
        return Err(e);
    }
    for x in v {
        x.into_inner().unwrap().0.close()?
    }
    if let Some(mut x) = lender {
        while x.step()? {}
        x.close()?
    }
    Ok(())
}

// ---- verdicts at cut-offs -------------------------------------------------------------------------------------------

fn verdicts(s: &Scenario) -> Res {
    let c = match s.clients.first() {
        Some(c) => c,
        None => return Ok(()),
    };
    let t = c.text();
    // Worst quick answer and failed checks so far, with the cut they were given at.
    let mut worst: [Option<(Verdict, usize)>; 12] = [None; 12];
    for o in &c.ops {
        if o.k != O::Verdict {
            continue;
        }
        let kind = o.a as usize % 12;
        let cut = (o.b as usize).min(t.len());
        let text = &t[..cut];
        count(K::Verdicts);
        let got = if kind < 6 {
            // What the source goes through up to the cut, then an end; asked again it would go on.
            let mut evs = vec![];
            let mut n = 0;
            let mut rest = c.evs.iter();
            while n < cut {
                let e = *rest.next().unwrap();
                n += matches!(e, Ev::Ch(_)) as usize;
                evs.push(e);
            }
            evs.push(Ev::Gap);
            count(K::Cut);
            evs.extend(rest);
            let what = || format!("{} of [{}] cut at {}", VNAMES[kind], show_text(&t), cut);
            let mut tries = 0;
            let v = loop {
                let (src, probe) = Src::new(Arc::new(Feed { evs: evs.clone(), hint: c.hint, fused: false }));
                let r = call(|| lib_quick(kind, src));
                if probe.after_end.load(Relaxed) > 0 {
                    return viol("asked-after-end", format!("{}: source asked again after it had ended", what()));
                }
                match r {
                    Ok(v) => break v,
                    Err(Fault::Source) if probe.faults.load(Relaxed) == 1 && tries <= c.evs.len() => {
                        // The check is lost; the stream is read again without this fault.
                        let k = evs.iter().position(|e| *e == Ev::Fault).unwrap();
                        evs.remove(k);
                        tries += 1;
                    }
                    Err(f) => return Err(lib_fault(&what(), f)),
                }
            };
            judge_quick(kind, text, v)?;
            v
        } else {
            let st: String = text.iter().collect();
            match call(|| lib_auth(kind, &st)) {
                Ok(g) => {
                    if g != in_form(kind, text) {
                        return viol("check-wrong", format!("{} of [{}] = {}", VNAMES[kind], show_text(text), g));
                    }
                    if g {
                        Verdict::Yes
                    } else {
                        Verdict::No
                    }
                }
                Err(f) => return Err(lib_fault(&format!("{} of [{}]", VNAMES[kind], show_text(text)), f)),
            }
        };
        if let Some(n) = NESTED.lock().unwrap().take() {
            return viol(&n.0, n.1);
        }
        ev("verdict", kind as u64, (got as u64) << 32 | cut as u64);
        crate::stats::state(crate::rng::mix((kind as u64) << 8 ^ (got as u64) << 4 ^ text.last().map_or(0, |c| ucd().class(*c) as u64) << 16 ^ worst[kind].map_or(9, |w| w.0 as u64) << 32));
        if let Some((w, at)) = worst[kind] {
            if at <= cut && got < w {
                return viol("verdict-retracted", format!("{} of [{}]: {:?} at cut {}, {:?} at cut {}", VNAMES[kind], show_text(&t), w, at, got, cut));
            }
        }
        if worst[kind].map_or(true, |w| w.0 < got) {
            worst[kind] = Some((got, cut))
        }
    }
    Ok(())
}

// ---- crash and restart ----------------------------------------------------------------------------------------------

fn restarts(s: &Scenario) -> Res {
    let c = match s.clients.first() {
        Some(c) if !c.stages.is_empty() => c,
        _ => return Ok(()),
    };
    let form = c.stages[0];
    let t = c.text();
    // Library's own answer to "may the text be cut in front of this character?"
    let boundary = |ch: char| -> Result<bool, crate::session::Viol> {
        call(|| {
            let kind = match form {
                Stage::Nfd => 0,
                Stage::Nfkd | Stage::Ss | Stage::Cjk => 1,
                Stage::Nfc => 2,
                Stage::Nfkc => 3,
            };
            uc::canonical_combining_class(ch) == 0 && lib_quick(kind, [ch].into_iter()) == Verdict::Yes
        })
        .map_err(|f| lib_fault("boundary test", f))
    };
    // Durable state: input, output, and the length of each that is settled.
    let mut disk: Vec<char> = vec![];
    let (mut done_in, mut done_out) = (0usize, 0usize);
    let mut lives = c.ops.iter().filter(|o| o.k == O::Pull).map(|o| (o.a as usize, o.b as usize)).collect::<Vec<_>>();
    lives.push((usize::MAX, c.ops.len() % 7)); // the last life is not cut short
    for (n, (ticks, batch)) in lives.iter().copied().enumerate() {
        // Restart: what was written beyond the settled length is discarded.
        disk.truncate(done_out);
        ev("start", n as u64, done_in as u64);
        let mut left = ticks;
        let mut at = done_in;
        let mut crashed = false;
        'life: loop {
            if done_in >= t.len() {
                break;
            }
            // Collect a piece: at least `batch` characters, then up to the next boundary.
            let start = done_in;
            at = start;
            loop {
                if at >= t.len() {
                    break;
                }
                if at > start && at - start > batch && boundary(t[at])? {
                    break;
                }
                at += 1;
                world::CLOCK.fetch_add(1, Relaxed);
                if left == 0 {
                    crashed = true;
                    break 'life;
                }
                left -= 1;
            }
            // Normalize it through a stream, writing as output appears.
            let piece: Vec<Ev> = t[start..at].iter().map(|c| Ev::Ch(*c)).collect();
            let (src, _) = Src::new(Arc::new(Feed { evs: piece, hint: c.hint, fused: false }));
            let mut h = call(|| crate::adapters::build(&[form], crate::adapters::Input::Sim(src), false, c.entry == 1)).map_err(|f| lib_fault("construction", f))?;
            loop {
                let o = call(|| h.next()).map_err(|f| lib_fault(&format!("{:?} of a piece of [{}]", form, show_text(&t)), f))?;
                match o {
                    Some(_) if disk.len() > t.len() * 20 + 1000 => return viol("runaway", format!("{:?} of a piece of [{}] does not end", form, show_text(&t))),
                    Some(x) => disk.push(x),
                    None => break,
                }
                world::CLOCK.fetch_add(1, Relaxed);
                if left == 0 {
                    crashed = true;
                    let _ = call(move || drop(h));
                    break 'life;
                }
                left -= 1;
            }
            let _ = call(move || drop(h));
            // Commit: one atomic record of both lengths.
            if left == 0 {
                crashed = true;
                break 'life;
            }
            done_in = at;
            done_out = disk.len();
            count(K::Commit);
            ev("commit", done_in as u64, done_out as u64);
            crate::stats::state(crate::rng::mix((form as u64) << 8 ^ t.get(at).map_or(0, |c| *c as u64) << 16 ^ ucd().class(t[at - 1]) as u64));
        }
        if crashed {
            count(K::Crash);
            ev("crash", n as u64, at as u64);
        }
    }
    disk.truncate(done_out);
    let whole = lib_run(form, &t)?;
    count(K::Laws);
    if disk != whole {
        return viol("resumed-differs", format!("{:?} of [{}] committed piecewise: [{}], in one run: [{}]", form, show_text(&t), show_text(&disk), show_text(&whole)));
    }
    if disk != model::run(form, &t) {
        return viol("output-wrong", format!("{:?} of [{}]: [{}], want [{}]", form, show_text(&t), show_text(&disk), show_text(&model::run(form, &t))));
    }
    Ok(())
}

// ---- laws between the library's own results -------------------------------------------------------------------------

fn laws(t: &[char], first: Stage) -> Res {
    use Stage::*;
    let mut r = vec![];
    for st in [Nfd, Nfkd, Nfc, Nfkc] {
        r.push(lib_run(st, t)?);
    }
    let same = |law: &str, a: &[char], b: &[char]| {
        count(K::Laws);
        if a != b {
            return viol("law-broken", format!("{} over [{}]: [{}] against [{}]", law, show_text(t), show_text(a), show_text(b)));
        }
        Ok(())
    };
    let (nfd, nfkd, nfc, nfkc) = (&r[0], &r[1], &r[2], &r[3]);
    same("NFD of NFD", &lib_run(Nfd, nfd)?, nfd)?;
    same("NFKD of NFKD", &lib_run(Nfkd, nfkd)?, nfkd)?;
    same("NFC of NFC", &lib_run(Nfc, nfc)?, nfc)?;
    same("NFKC of NFKC", &lib_run(Nfkc, nfkc)?, nfkc)?;
    same("NFC of NFD", &lib_run(Nfc, nfd)?, nfc)?;
    same("NFD of NFC", &lib_run(Nfd, nfc)?, nfd)?;
    same("NFKC of NFKD", &lib_run(Nfkc, nfkd)?, nfkc)?;
    same("NFKD of NFKC", &lib_run(Nfkd, nfkc)?, nfkd)?;
    same("NFKC of NFC", &lib_run(Nfkc, nfc)?, nfkc)?;
    same("NFKD of NFD", &lib_run(Nfkd, nfd)?, nfkd)?;
    same("NFKC of NFD", &lib_run(Nfkc, nfd)?, nfkc)?;
    same("NFKD of NFC", &lib_run(Nfkd, nfc)?, nfkd)?;
    same("NFC of NFKC", &lib_run(Nfc, nfkc)?, nfkc)?;
    same("NFD of NFKD", &lib_run(Nfd, nfkd)?, nfkd)?;
    // Stream safety survives normalization; normalization survives being made stream-safe.
    let ss = lib_run(Ss, t)?;
    same("stream-safe of stream-safe", &lib_run(Ss, &ss)?, &ss)?;
    let forms = [Nfd, Nfkd, Nfc, Nfkc];
    for f in forms {
        let n = lib_run(f, &ss)?;
        same(&format!("stream-safe of {:?} of stream-safe", f), &lib_run(Ss, &n)?, &n)?;
    }
    let f = if first.normalizes() { first } else { Nfc };
    let n = lib_run(Ss, &lib_run(f, t)?)?;
    same(&format!("{:?} of stream-safe of {:?}", f, f), &lib_run(f, &n)?, &n)
}

// ---- callbacks ------------------------------------------------------------------------------------------------------

fn callbacks(s: &Scenario) -> Res {
    let p = |i: usize| s.params.get(i).copied().unwrap_or(0);
    for c in &s.clients {
        for ch in c.text() {
            for f in 0..3usize {
                if p(0) < 3 && p(0) != f as u64 {
                    continue;
                }
                let want = want_decompose(f, ch);
                let check = |got: &[char], n: usize, when: &str| {
                    if got != &want[..n] {
                        return viol("callback-wrong", format!("{}(U+{:04X}) {}: calls [{}], want [{}]", FNAMES[f], ch as u32, when, show_text(got), show_text(&want[..n])));
                    }
                    Ok(())
                };
                let err = |x: Fault| lib_fault(&format!("{}(U+{:04X})", FNAMES[f], ch as u32), x);
                let got = RefCell::new(vec![]);
                count(K::Queries);
                let push = |d: char| {
                    let _g = heap::enter(false);
                    if got.borrow().len() < 1000 {
                        got.borrow_mut().push(d)
                    }
                };
                match call(|| {
                    lib_decompose(f, ch, |d| {
                        push(d);
                        if p(2) == 1 {
                            let _g = heap::enter(false);
                            count(K::Reenter);
                            crate::nested::run((got.borrow().len() as u32 * 31 + ch as u32) as u8);
                        }
                    })
                }) {
                    Ok(()) => check(&got.borrow(), want.len(), "")?,
                    Err(x) => return Err(err(x)),
                }
                if let Some(n) = NESTED.lock().unwrap().take() {
                    return viol(&n.0, n.1);
                }
                ev("callback", ch as u64, f as u64);
                let mut plan: Vec<usize> = vec![];
                match p(1) as usize {
                    0 => (),
                    99 => plan.extend(1..=want.len()),
                    k if k <= want.len() => plan.push(k),
                    _ => (),
                }
                for k in plan {
                    got.borrow_mut().clear();
                    let r = call(|| {
                        lib_decompose(f, ch, |d| {
                            push(d);
                            if got.borrow().len() == k {
                                callback_fault()
                            }
                        })
                    });
                    ev("callback-unwinds", k as u64, 0);
                    check(&got.borrow(), k, &format!("unwinding at call {}", k))?;
                    match r {
                        Err(Fault::Callback) => (),
                        Ok(()) => return viol("unwinding-swallowed", format!("{}(U+{:04X}): the callback unwound at call {}, but the function returned", FNAMES[f], ch as u32, k)),
                        Err(x) => return Err(err(x)),
                    }
                    // Afterwards everything is as before.
                    got.borrow_mut().clear();
                    match call(|| lib_decompose(f, ch, push)) {
                        Ok(()) => check(&got.borrow(), want.len(), "after unwinding")?,
                        Err(x) => return Err(err(x)),
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- damage ---------------------------------------------------------------------------------------------------------

fn damage(s: &Scenario) -> Res {
    if s.clients.len() < 2 {
        return Ok(());
    }
    let (u, d) = (s.clients[0].text(), s.clients[1].text());
    count(K::Damage);
    let p = u.iter().zip(&d).take_while(|(a, b)| a == b).count();
    let q = u[p..].iter().rev().zip(d[p..].iter().rev()).take_while(|(a, b)| a == b).count();
    for (i, &st) in model::STAGES.iter().enumerate() {
        let out = lib_run(st, &d)?;
        ev("damaged-out", i as u64, out.len() as u64);
        if out.is_empty() != d.is_empty() {
            return viol("text-vanishes", format!("{:?} of [{}] is empty", st, show_text(&d)));
        }
        let want = model::run(st, &d);
        if out != want {
            return viol("output-wrong", format!("{:?} of damaged [{}]: [{}], want [{}]", st, show_text(&d), show_text(&out), show_text(&want)));
        }
        if s.params.first().map_or(true, |m| m >> i & 1 == 1) {
            // Outside the undamaged boundaries around the damage nothing changes.
            let clean = lib_run(st, &u)?;
            let b = (0..p).rev().find(|&k| model::is_boundary(st, u[k])).unwrap_or(0);
            let e = (u.len() - q..u.len()).find(|&k| model::is_boundary(st, u[k])).unwrap_or(u.len());
            let head = lib_run(st, &u[..b])?;
            let tail = lib_run(st, &u[e..])?;
            count(K::Contained);
            for (name, o) in [("undamaged", &clean), ("damaged", &out)] {
                if o.len() < head.len() || o[..head.len()] != head[..] {
                    return viol("damage-spreads", format!("{:?} of {} [{}] does not start with the output of its first {} characters", st, name, show_text(if name == "damaged" { &d } else { &u }), b));
                }
                if o.len() < tail.len() || o[o.len() - tail.len()..] != tail[..] {
                    return viol("damage-spreads", format!("{:?} of {} [{}] does not end with the output of the undamaged rest from character {}", st, name, show_text(if name == "damaged" { &d } else { &u }), e));
                }
            }
        }
    }
    for k in 0..queries::VERDICTS {
        queries::verdict_of_text(k as u32, &d)?;
    }
    Ok(())
}

/// Does the run exercise anything: a character the library treats specially, or a fault?
pub fn nontrivial(s: &Scenario) -> bool {
    let u = ucd();
    let special = |c: char| (c as u32) >= 0x80 && (u.class(c) != 0 || u.has_decomposition(c, true) || u.is_second(c) || u.cjk(c).is_some());
    s.clients.iter().any(|c: &Client| {
        c.ops.iter().any(|o| o.k == O::Query) || c.evs.iter().any(|e| match e {
            Ev::Ch(c) => special(*c),
            _ => true,
        })
    })
}
