//! Scenario generators, one per property. A scenario is a pure function of (seed, property, run index).
use crate::adapters::{FINS, HOWS};
use crate::model::{self, Stage, Stage::*};
use crate::queries::{pack, QUERIES, VERDICTS};
use crate::rng::Rng;
use crate::scenario::{op, Client, Ev, Op, Scenario, O};
use crate::textgen::{self, Style};
use crate::ucd::ucd;

/// What C22 executes in both builds.
pub const REBUILT: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C12", "C05", "C06", "C07", "C17", "C08", "C09", "C16", "C13", "C14", "C15", "C02", "C18",
];

pub fn scenario(prop: &str, seed: u64, index: u64) -> Scenario {
    let n: u64 = prop[1..].parse().unwrap();
    let mut r = Rng::new(seed, n, index);
    let r = &mut r;
    let mut s = Scenario { prop: prop.into(), clients: vec![], sched: vec![], params: vec![] };
    match n {
        1 => streams(r, index, &mut s, &[Nfd, Nfkd]),
        2 => streams(r, index, &mut s, &[Nfc, Nfkc]),
        3 => streams(r, index, &mut s, &[Ss]),
        4 => streams(r, index, &mut s, &[Cjk]),
        5 => read_ahead(r, index, &mut s),
        6 => ends(r, index, &mut s),
        7 => snapshots(r, index, &mut s),
        8 => sinks(r, index, &mut s),
        9 => unwinding(r, index, &mut s),
        10 => memory(r, index, &mut s),
        11 => exhaustion(r, index, &mut s),
        12 => concurrent(r, index, &mut s),
        13 => verdicts(r, index, &mut s),
        14 => restarts(r, index, &mut s),
        15 => stacks(r, index, &mut s),
        16 => callbacks(r, index, &mut s),
        17 => consumption(r, index, &mut s),
        18 => damage(r, index, &mut s),
        22 => return scenario(REBUILT[(index % REBUILT.len() as u64) as usize], seed ^ 0x22, index),
        23 => steps(r, index, &mut s),
        _ => panic!("harness: property {}", prop),
    }
    s
}

// ---- sources --------------------------------------------------------------------------------------------------------

/// Which environment events a source of this run shows, and how often (per 1000 positions; 0: never).
#[derive(Default, Clone, Copy)]
struct Mix {
    stall: usize,
    gap: usize,
    fault: usize,
    reenter: usize,
}
fn rate(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 8, 40, 150, 400])
}
fn feed(r: &mut Rng, text: &[char], m: Mix) -> Vec<Ev> {
    let mut v = Vec::with_capacity(text.len() + 8);
    let u = ucd();
    let mut boost = 1;
    for i in 0..=text.len() {
        // Faults land more often where something is held back: after a non-starter or a composing character.
        let rare = |r: &mut Rng, p: usize, boost: usize| p > 0 && r.below(1000) < (p * boost).min(900);
        for _ in 0..2 {
            if rare(r, m.stall, boost) {
                v.push(Ev::Stall(r.range(1, 50_000) as u16))
            }
            if rare(r, m.reenter, boost) {
                v.push(Ev::Reenter(r.below(256) as u8))
            }
            if rare(r, m.fault, boost) {
                v.push(Ev::Fault)
            }
        }
        if rare(r, m.gap, boost) {
            v.push(Ev::Gap);
            if r.chance(1, 8) {
                v.push(Ev::Gap)
            }
        }
        if i < text.len() {
            let c = text[i];
            v.push(Ev::Ch(c));
            boost = if u.class(c) != 0 || u.is_second(c) || u.has_decomposition(c, true) { 3 } else { 1 };
        }
    }
    v
}

fn pulls(r: &mut Rng, len: usize, ops: &mut Vec<Op>) {
    let style = r.below(4);
    let mut left = len * 2 + 3;
    while left > 0 && ops.len() < 200 {
        let k = match style {
            0 => left,
            1 => 1,
            2 => r.range(1, 4),
            _ => r.range(1, left.min(64)),
        };
        ops.push(op(O::Pull, k, 0));
        left = left.saturating_sub(k);
        if r.chance(1, 30) {
            break; // the consumer loses interest
        }
    }
}

fn client(r: &mut Rng, stages: Vec<Stage>, evs: Vec<Ev>) -> Client {
    let gaps = evs.contains(&Ev::Gap);
    Client { stages, evs, ops: vec![], fused: !gaps && r.chance(1, 3), hint: r.below(7) as u8, entry: if r.chance(1, 4) { 1 } else { 0 } }
}

fn sched(r: &mut Rng, n: usize) -> Vec<u8> {
    let calm = *r.pick(&[0usize, 2, 6, 20]);
    (0..n).map(|_| if r.below(calm + 2) > 1 { 0 } else { r.below(12) as u8 }).collect()
}

// ---- per property ---------------------------------------------------------------------------------------------------

fn streams(r: &mut Rng, index: u64, s: &mut Scenario, stages: &[Stage]) {
    let n = if r.chance(1, 6) { r.range(2, 3) } else { 1 };
    let mut mix = Mix { stall: rate(r), reenter: if r.chance(1, 4) { 30 } else { 0 }, ..Mix::default() };
    if !stages[0].normalizes() && r.chance(1, 3) {
        mix.gap = 40
    }
    for i in 0..n {
        let mut t = if i == 0 { textgen::text(r, index) } else { Style::new(r, index).text(r) };
        if stages[0] == Ss && i == 0 && index % 64 == 34 {
            // Over a batch, every scalar value between two runs that are too long only together.
            let st = Style::new(r, index);
            t.clear();
            for k in 0..40 {
                t.extend((0..r.range(16, 24)).map(|_| st.mark(r)));
                t.extend(char::from_u32(textgen::perm(index / 64 * 40 + k)));
            }
            t.extend((0..r.range(16, 24)).map(|_| st.mark(r)))
        } else if stages[0] == Ss && r.chance(1, 2) {
            near_limit(r, &mut t)
        }
        if r.chance(1, 4) {
            let k = r.range(0, t.len());
            t.truncate(k) // the source is cut off
        }
        let st = *r.pick(stages);
        let mut stack = vec![st];
        if st == Ss && r.chance(1, 5) {
            stack.push(Ss)
        }
        let evs = feed(r, &t, mix);
        let mut c = client(r, stack, evs);
        if mix.gap == 0 && r.chance(1, 6) {
            c.entry = 2
        }
        if r.chance(1, 60) {
            c.entry = 3
        }
        pulls(r, c.evs.len(), &mut c.ops);
        if r.chance(1, 3) {
            c.ops.push(op(O::Post, r.range(0, 3), 0))
        }
        s.clients.push(c);
    }
    if n > 1 {
        s.sched = sched(r, 60)
    }
}

/// Runs of marks around the stream-safe limit, with characters that decompose to several of them.
fn near_limit(r: &mut Rng, t: &mut Vec<char>) {
    let u = ucd();
    let st = Style::new(r, 0);
    for _ in 0..r.range(1, 3) {
        let at = r.range(0, t.len());
        let mut run = vec![];
        if r.chance(1, 2) {
            run.push(*r.pick(&u.trailing_ns))
        }
        let n = *r.pick(&[26usize, 27, 28, 29, 30, 31, 32, 58, 60, 61, 62]);
        while run.len() < n {
            run.push(match r.below(12) {
                0 if !u.mixed_ns.is_empty() => *r.pick(&u.mixed_ns),
                1 if r.chance(1, 4) => *r.pick(&u.trailing_ns),
                _ => st.mark(r),
            })
        }
        if r.chance(1, 3) {
            run.push(*r.pick(&u.trailing_ns))
        }
        t.splice(at..at, run);
    }
}

fn read_ahead(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let depth = *r.pick(&[1usize, 1, 1, 2, 3]);
    let stages: Vec<Stage> = (0..depth).map(|_| *r.pick(&model::STAGES)).collect();
    let gaps = if r.chance(1, 4) { 30 } else { 0 };
    let m = Mix { stall: rate(r), gap: gaps, fault: if r.chance(1, 6) { 30 } else { 0 }, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages, evs);
    if r.chance(2, 3) {
        c.fused = false
    }
    for _ in 0..r.range(1, 4) {
        match r.below(6) {
            0 => c.ops.push(op(O::Hint, 0, 0)),
            1 => c.ops.push(op(O::Clone, r.below(2), 0)),
            2 => c.ops.push(op(O::Display, 0, 0)),
            _ => (),
        }
        let k = r.range(1, 30);
        for _ in 0..k {
            c.ops.push(op(O::Pull, 1, 0))
        }
    }
    pulls(r, c.evs.len(), &mut c.ops);
    s.clients.push(c);
}

fn ends(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let stages = if r.chance(1, 5) { vec![*r.pick(&model::STAGES), *r.pick(&model::STAGES)] } else { vec![*r.pick(&model::STAGES)] };
    let promise = r.chance(1, 3);
    let m = Mix { gap: if promise { 0 } else { *r.pick(&[5, 30, 120]) }, stall: rate(r), fault: if r.chance(1, 4) { 30 } else { 0 }, ..Mix::default() };
    let mut evs = feed(r, &t, m);
    if !promise && r.chance(1, 2) {
        // an end at one chosen place, preferably with something held back
        let k = r.range(0, evs.len());
        evs.insert(k, Ev::Gap)
    }
    let mut c = client(r, stages, evs);
    c.fused = promise;
    for _ in 0..r.range(0, 3) {
        c.ops.push(op(O::Pull, r.range(1, 20), 0));
        if r.chance(1, 4) {
            c.ops.push(op(O::Clone, r.below(2), 0))
        }
    }
    if r.chance(1, 3) {
        c.ops.push(op(O::Drain, 0, 0));
        c.ops.push(op(O::Hint, 0, 0));
        c.ops.push(op(O::Pull, r.range(1, 5), 0));
    }
    c.ops.push(op(O::Post, r.range(1, 40), 0));
    s.clients.push(c);
}

fn snapshots(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2])).map(|_| *r.pick(&model::STAGES[..5])).collect();
    let gaps = if stages.iter().all(|s| !s.normalizes()) && r.chance(1, 4) { 30 } else { 0 };
    let m = Mix { stall: rate(r), reenter: if r.chance(1, 6) { 30 } else { 0 }, gap: gaps, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages, evs);
    if gaps == 0 && r.chance(1, 6) {
        c.entry = 2
    }
    let len = t.len();
    for _ in 0..r.range(3, 30) {
        let o = match r.below(15) {
            14 => op(O::Torn, r.below(18), r.below(4) / 3),
            0..=4 => op(O::Pull, if r.chance(1, 2) { r.range(1, 3) } else { r.range(1, len + 2) }, 0),
            5..=6 => op(O::Clone, r.below(2), 0),
            7 => op(O::Switch, r.below(6), 0),
            8 => op(O::Drop, r.below(6), 0),
            9..=10 => op(O::Display, 0, 5 * r.below(8)),
            11 => op(O::Switch, r.below(6), 0),
            12 => op(O::Assign, r.below(6), 0),
            _ => op(O::Renew, r.range(1, 6), r.below(3)),
        };
        c.ops.push(o);
    }
    for i in 0..6 {
        c.ops.push(op(O::Switch, i, 0));
        c.ops.push(op(O::Post, 1, 0));
    }
    s.clients.push(c);
}

fn sinks(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2])).map(|_| *r.pick(&model::STAGES[..5])).collect();
    let m = Mix { stall: if r.chance(1, 4) { 30 } else { 0 }, fault: if r.chance(1, 8) { 30 } else { 0 }, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages, evs);
    let len = model::run_all(&c.stages, &t).iter().map(|c| c.len_utf8()).sum::<usize>();
    for _ in 0..r.range(2, 8) {
        if r.chance(2, 3) {
            c.ops.push(op(O::Pull, r.range(0, t.len() / 2 + 2), 0));
        }
        let mode = r.below(5);
        let cap = if r.chance(1, 8) { 0 } else { r.range(0, len + 2) };
        c.ops.push(op(O::Display, cap, mode));
        if r.chance(1, 4) {
            c.ops.push(op(O::Clone, r.below(2), 0))
        }
        if r.chance(1, 3) {
            c.ops.push(op(O::Display, 0, 0))
        }
        if r.chance(1, 8) {
            c.ops.push(op(O::Switch, r.below(3), 0))
        }
    }
    c.ops.push(op(O::Post, 1, 0));
    s.clients.push(c);
}

fn unwinding(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2, 3])).map(|_| *r.pick(&model::STAGES)).collect();
    // Streams without a normalizing stage go on behind an end.
    let gap = if stages.iter().all(|s| !s.normalizes()) && r.chance(1, 4) { 20 } else { 0 };
    let m = Mix { fault: *r.pick(&[10, 60, 200]), stall: if r.chance(1, 4) { 30 } else { 0 }, gap, ..Mix::default() };
    let mut evs = feed(r, &t, m);
    if r.chance(1, 2) {
        let k = r.range(0, evs.len());
        for _ in 0..r.range(1, 3) {
            evs.insert(k, Ev::Fault)
        }
    }
    let mut c = client(r, stages, evs);
    for _ in 0..r.range(1, 12) {
        if r.chance(2, 3) {
            c.ops.push(op(O::Pull, r.range(1, 12), 0))
        } else {
            c.ops.push(op(O::Through, r.range(1, 12), r.below(14)))
        }
        match r.below(12) {
            11 if gap == 0 => c.ops.push(op(O::Skip, r.range(1, 20), 0)),
            10 if r.chance(1, 2) => c.ops.push(op(O::Finish, r.below(4), r.below(FINS.len()))),
            9 => c.ops.push(op(O::Torn, r.below(9), r.below(4) / 3)),
            0 => c.ops.push(op(O::Clone, r.below(2), 0)),
            1 => c.ops.push(op(O::Display, 0, 0)),
            2 => c.ops.push(op(O::Switch, r.below(3), 0)),
            3 => c.ops.push(op(O::Drop, r.below(3), 0)),
            4 => c.ops.push(op(O::Assign, r.below(3), 0)),
            _ => (),
        }
    }
    for i in 0..3 {
        c.ops.push(op(O::Switch, i, 0));
        c.ops.push(op(O::Post, 2, 0));
    }
    s.clients.push(c);
}

fn memory(r: &mut Rng, index: u64, s: &mut Scenario) {
    let st = Style::new(r, index);
    let long = r.chance(1, 8);
    let want = if long { r.range(4_000, 30_000) } else { r.range(0, 300) };
    let mut t = textgen::text(r, index);
    if long {
        // A long stream made of a few pieces over and over: what is kept from each piece adds up.
        let mut pieces: Vec<Vec<char>> = (0..r.range(1, 4)).map(|_| {
            let mut v = vec![];
            st.segment(r, &mut v);
            v.truncate(100);
            v
        }).collect();
        if r.chance(1, 4) {
            // Only marks that start no new segment until the stream-safe limit is reached.
            for p in pieces.iter_mut() {
                p.insert(0, 'x')
            }
        }
        if pieces.iter().all(|p| p.is_empty()) {
            pieces.push(vec!['a', '\u{301}'])
        }
        t.truncate(200);
        while t.len() < want {
            let p = r.below(pieces.len());
            t.extend_from_slice(&pieces[p]);
        }
    }
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2, 3])).map(|_| *r.pick(&model::STAGES)).collect();
    let fault = if long { 0 } else { *r.pick(&[0, 0, 30, 100]) };
    let m = Mix { fault, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages, evs);
    if long {
        c.ops.push(op(O::Pull, r.range(0, want), 0));
        c.ops.push(op(O::Clone, r.below(2), 0));
        if r.chance(1, 3) {
            c.ops.push(op(O::Renew, r.range(100, 600), r.below(4)))
        }
        if r.chance(1, 4) {
            c.ops.push(op(O::Display, r.below(want), r.below(4)))
        }
        c.ops.push(op(O::Pull, want * 3, 0));
    } else {
        for _ in 0..r.range(1, 14) {
            let o = match r.below(13) {
                11 => op(O::Through, r.range(1, t.len() + 2), r.below(14)),
                // Those that gather nothing.
                12 => op(O::Finish, 0, *r.pick(&[3, 4, 11, 16, 17, 18, 21, 23])),
                10 => op(O::Torn, r.below(12), r.below(4) / 3),
                0..=3 => op(O::Pull, r.range(1, t.len() + 2), 0),
                4 => op(O::Clone, r.below(2), 0),
                5 => op(O::Switch, r.below(4), 0),
                6 => op(O::Drop, r.below(4), 0),
                7 if r.chance(1, 4) => op(O::Renew, r.range(1, t.len() + 2), r.below(3)),
                7 => op(O::Renew, r.range(1, 8), r.below(2)),
                8 => op(O::Assign, r.below(4), 0),
                _ => op(O::Display, r.range(0, t.len() * 2), r.below(4)),
            };
            c.ops.push(o);
        }
    }
    s.clients.push(c);
}

/// params: 0 = heap gone for the heap-free surfaces, 1 = the n-th allocation (and `len - 1` after it) fails; n; len.
fn exhaustion(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = {
        let mut t = textgen::text(r, index);
        if r.chance(1, 3) {
            let mut x = vec!['a'];
            let st = Style::new(r, index);
            for _ in 0..r.range(3, 90) {
                x.push(st.mark(r))
            }
            let at = r.range(0, t.len());
            t.splice(at..at, x);
        }
        t
    };
    if r.chance(1, 2) {
        s.params = vec![0];
        let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 2, 3])).map(|_| *r.pick(&[Ss, Cjk])).collect();
        let m = Mix { stall: if r.chance(1, 4) { 30 } else { 0 }, gap: if r.chance(1, 4) { 30 } else { 0 }, ..Mix::default() };
        let evs = feed(r, &t, m);
        let mut c = client(r, stages, evs);
        for _ in 0..r.range(1, 6) {
            c.ops.push(op(O::Pull, r.range(1, t.len() + 2), 0));
            match r.below(5) {
                0 => c.ops.push(op(O::Clone, r.below(2), 0)),
                1 => c.ops.push(op(O::Hint, 0, 0)),
                2 => c.ops.push(op(O::Display, r.range(0, t.len() * 3), r.below(4))),
                _ => (),
            }
        }
        c.ops.push(op(O::Post, 1, 0));
        for _ in 0..r.range(0, 6) {
            c.ops.push(op(O::Verdict, r.below(VERDICTS), r.range(0, t.len())))
        }
        for &x in t.iter().take(40) {
            let k = r.below(QUERIES);
            c.ops.push(op(O::Query, pack(k, x), if r.chance(1, 2) { *r.pick(&t) as usize } else { *r.pick(&ucd().seconds) as usize }));
        }
        s.clients.push(c);
    } else {
        let top = if r.chance(1, 2) { 3 } else { 12 };
        s.params = vec![1, r.range(1, top) as u64, *r.pick(&[1u64, 1, 2, 5, 1 << 40])];
        let n = r.range(1, 3);
        for i in 0..n {
            let tt = if i == 0 { t.clone() } else { Style::new(r, index).text(r) };
            let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 2])).map(|_| *r.pick(&model::STAGES)).collect();
            let m = if r.chance(1, 3) { Mix { fault: rate(r) / 4, reenter: rate(r) / 4, stall: rate(r) / 4, ..Mix::default() } } else { Mix::default() };
            let evs = feed(r, &tt, m);
            let mut c = client(r, stages, evs);
            for _ in 0..r.range(2, 12) {
                let o = match r.below(11) {
                    10 => op(O::Through, r.range(1, tt.len() + 2), r.below(14)),
                    9 => op(O::Torn, r.below(12), r.below(4) / 3),
                    0..=3 => op(O::Pull, r.range(1, tt.len() + 2), 0),
                    4..=5 => op(O::Clone, r.below(2), 0),
                    6 => op(O::Switch, r.below(4), 0),
                    7 => op(O::Assign, r.below(4), 0),
                    _ => op(O::Display, r.range(0, tt.len() * 2), r.below(4)),
                };
                c.ops.push(o);
            }
            for i in 0..4 {
                c.ops.push(op(O::Switch, i, 0));
                c.ops.push(op(O::Post, 1, 0));
            }
            s.clients.push(c);
        }
        s.sched = sched(r, 40);
    }
}

/// params: number of threads, then the preemptions between instructions (distance << 4 | whom).
fn concurrent(r: &mut Rng, index: u64, s: &mut Scenario) {
    if index % 2 == 1 {
        hammer(r, s);
        return;
    }
    let index = index / 2;
    if index % 8 == 5 {
        sharing(r, index / 8, s);
        return;
    }
    let threads = r.range(2, 4);
    s.params = vec![threads as u64];
    let n = r.range(2, 5);
    let u = ucd();
    let shared = textgen::text(r, index);
    for i in 0..n {
        let t = if r.chance(1, 3) { shared.clone() } else if i == 0 { shared.clone() } else { Style::new(r, index + i as u64).text(r) };
        let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2])).map(|_| *r.pick(&model::STAGES)).collect();
        let m = Mix { stall: rate(r), reenter: rate(r) / 4, fault: if r.chance(1, 8) { 20 } else { 0 }, gap: 0 };
        let evs = feed(r, &t, m);
        let mut c = client(r, stages, evs);
        for _ in 0..r.range(2, 14) {
            let o = match r.below(16) {
                0..=6 => op(O::Pull, if r.chance(1, 2) { r.range(1, 4) } else { r.range(1, t.len() + 2) }, 0),
                7 => op(O::Clone, r.below(2), 0),
                8 => op(O::Display, r.range(0, t.len() * 2), r.below(5)),
                9 => op(O::Verdict, r.below(VERDICTS), r.range(0, t.len())),
                10 => op(O::Text, r.below(11), 0),
                11 => op(O::Switch, r.below(3), 0),
                _ => op(O::Query, pack(r.below(QUERIES), pick_char(r, &t)), query_second(r, &t)),
            };
            c.ops.push(o);
        }
        c.ops.push(op(O::Post, 1, 0));
        s.clients.push(c);
    }
    // Per-character queries in bulk; over the runs they visit every code point and every composing pair.
    let mut c = Client { stages: vec![Nfc], evs: vec![], ops: vec![], fused: false, hint: 0, entry: 0 };
    for i in 0..48u64 {
        let x = textgen::perm(index.wrapping_mul(48).wrapping_add(i));
        for k in [0usize, 1, 2] {
            c.ops.push(op(O::Query, k << 21 | x as usize, 0))
        }
        let y = u.interesting[((index.wrapping_mul(48).wrapping_add(i)).wrapping_mul(7919) % u.interesting.len() as u64) as usize];
        let k = r.below(QUERIES);
        c.ops.push(op(O::Query, pack(k, y), query_second(r, &shared)));
        c.ops.push(op(O::Query, pack((i % 3) as usize, y), 0));
    }
    for i in 0..32u64 {
        let (a, b, _) = u.composites[((index.wrapping_mul(32).wrapping_add(i)).wrapping_mul(31) % u.composites.len() as u64) as usize];
        let (a, b) = match r.below(6) {
            0 => (b, a),
            1 => (a, near(r, b)),
            2 => (near(r, a), b),
            _ => (a, b),
        };
        c.ops.push(op(O::Query, pack(3, a), b as usize));
        // Hangul pairs
        let x = r.range(0x10FF, 0x1113) as u32;
        let y = r.range(0x1160, 0x1176) as u32;
        let (x, y) = if r.chance(1, 2) { (x, y) } else { (r.range(0xABFF, 0xD7A4) as u32, r.range(0x11A6, 0x11C3) as u32) };
        c.ops.push(op(O::Query, 3 << 21 | x as usize, y as usize));
    }
    s.clients.push(c);
    nest(r, s);
    s.sched = sched(r, 400);
    if r.chance(7, 8) {
        preemptions(r, s)
    }
}
/// One stream, at rest somewhere in its text, looked at by several threads at once: displayed, cloned, asked for its size.
fn sharing(r: &mut Rng, index: u64, s: &mut Scenario) {
    s.params = vec![r.range(2, 4) as u64];
    let t = textgen::text(r, index);
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2])).map(|_| *r.pick(&model::STAGES[..5])).collect();
    let m = Mix { stall: rate(r), reenter: rate(r) / 4, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages.clone(), evs);
    if r.chance(1, 6) {
        c.entry = 2
    }
    c.ops = vec![op(O::Pull, r.range(0, t.len() + 2), 0), op(O::Share, 0, 0), op(O::Display, 0, 0), op(O::Post, 1, 0)];
    s.clients.push(c);
    for _ in 0..r.range(2, 4) {
        let mut c = Client { stages: stages.clone(), evs: vec![], ops: vec![], fused: false, hint: 0, entry: crate::exec::LENT };
        for _ in 0..r.range(2, 10) {
            let o = match r.below(12) {
                0..=4 => op(O::Display, if r.chance(1, 2) { 0 } else { r.range(0, t.len() * 2) }, 5 * r.below(8) + if r.chance(1, 3) { r.below(5) } else { 0 }),
                5 => op(O::Hint, 0, 0),
                6..=7 => op(O::Clone, r.below(2), 0),
                8 => op(O::Switch, r.below(3), 0),
                9 => op(O::Assign, 0, 0),
                10 => op(O::Query, pack(r.below(QUERIES), pick_char(r, &t)), query_second(r, &t)),
                _ => op(O::Pull, r.range(1, t.len() + 2), 0),
            };
            c.ops.push(o);
        }
        s.clients.push(c);
    }
    s.sched = sched(r, 100);
    if r.chance(15, 16) {
        preemptions(r, s)
    }
}
/// Some of the callbacks call back into the library.
fn nest(r: &mut Rng, s: &mut Scenario) {
    let p = *r.pick(&[0, 1, 4]);
    for o in s.clients.iter_mut().flat_map(|c| c.ops.iter_mut()) {
        if o.k == O::Query && (4..7).contains(&((o.a >> 21) as usize % QUERIES)) && r.chance(p, 6) {
            if r.chance(1, 2) {
                o.b = pick_char(r, &[]) as u32
            }
            o.b |= (r.range(1, 7) as u32) << 21
        }
    }
}
fn preemptions(r: &mut Rng, s: &mut Scenario) {
    let far = *r.pick(&[0usize, 100, 3_000, 40_000]);
    let near = *r.pick(&[6usize, 20, 60, 300, 2_000]);
    let n = r.range(1, 400);
    s.params.push((r.range(1, far + 1) as u64) << 4 | r.below(12) as u64);
    for _ in 0..n {
        let d = if r.chance(1, 40) { r.range(1, far + 1) } else { r.range(1, near) };
        s.params.push((d as u64) << 4 | r.below(12) as u64)
    }
}
/// A few characters and their look-alikes in one or two functions, asked for by several clients again and again: what one
/// call leaves behind, or is in the middle of, meets the next.
fn hammer(r: &mut Rng, s: &mut Scenario) {
    let u = ucd();
    s.params = vec![r.range(2, 4) as u64];
    let theme = r.below(6);
    let mut chars: Vec<char> = vec![];
    let mut hot: Vec<Op> = vec![];
    let funcs: Vec<usize> = (0..2).map(|_| r.below(QUERIES)).collect();
    for _ in 0..r.range(1, 4) {
        let mut c = match theme {
            0 => *r.pick(&u.cjk_list),
            1 => *r.pick(&u.marks),
            2 => *r.pick(&u.decomposing),
            3 => *r.pick(&u.edges),
            _ => pick_char(r, &chars),
        };
        let mut second = *r.pick(&u.seconds);
        if theme > 3 {
            let (a, b, _) = *r.pick(&u.composites);
            c = a;
            second = b
        }
        chars.push(c);
        if r.chance(1, 2) {
            chars.push(second)
        }
        let natural = match theme {
            0 => *r.pick(&[6usize, 6, 4, 5]),
            1 => *r.pick(&[0usize, 1]),
            2 => *r.pick(&[4usize, 5, 7]),
            3 => r.below(QUERIES),
            _ => 3,
        };
        for f in [natural, funcs[0], funcs[1]] {
            hot.push(op(O::Query, pack(f, c), second as usize));
            if r.chance(1, 2) {
                let (x, y) = match r.below(3) {
                    0 => (near(r, c), second),
                    1 => (c, near(r, second)),
                    _ => (near(r, c), near(r, second)),
                };
                hot.push(op(O::Query, pack(f, x), y as usize));
                if r.chance(1, 4) {
                    chars.push(x)
                }
            }
        }
    }
    for _ in 0..r.range(0, 3) {
        hot.push(match r.below(3) {
            0 => op(O::Verdict, r.below(VERDICTS), r.range(0, 12)),
            1 => op(O::Text, r.below(11), 0),
            _ => op(O::Pull, r.range(1, 12), 0),
        })
    }
    let stage = *r.pick(&model::STAGES);
    for _ in 0..r.range(2, 4) {
        let t: Vec<char> = (0..r.range(1, 10)).map(|_| *r.pick(&chars)).collect();
        let st = if r.chance(2, 3) { stage } else { *r.pick(&model::STAGES) };
        let evs = t.iter().map(|c| Ev::Ch(*c)).collect();
        let mut c = client(r, vec![st], evs);
        for _ in 0..r.range(4, 24) {
            c.ops.push(if r.chance(1, 6) { op(O::Pull, r.range(1, 12), 0) } else { *r.pick(&hot) })
        }
        s.clients.push(c)
    }
    nest(r, s);
    s.sched = sched(r, 100);
    if r.chance(15, 16) {
        preemptions(r, s)
    }
}
fn near(r: &mut Rng, c: char) -> char {
    let x = c as u32;
    // Neighbours, and characters that look the same to code that keeps only some of the bits.
    let y = match r.below(6) {
        0 => x ^ 1 << r.below(21),
        1 => x ^ 0x10000,
        2 => x & 0xFFFF | (r.below(17) as u32) << 16,
        3 => x & 0xFF | (r.below(0x1100) as u32) << 8,
        4 => x & 0xFFF | (r.below(0x110) as u32) << 12,
        _ => x.wrapping_add(1),
    };
    char::from_u32(y).unwrap_or(c)
}
fn pick_char(r: &mut Rng, t: &[char]) -> char {
    let u = ucd();
    match r.below(4) {
        0 if !t.is_empty() => *r.pick(t),
        1 => *r.pick(&u.edges),
        _ => *r.pick(&u.interesting),
    }
}
fn query_second(r: &mut Rng, t: &[char]) -> usize {
    if r.chance(1, 2) && !t.is_empty() {
        *r.pick(t) as usize
    } else {
        *r.pick(&ucd().seconds) as usize
    }
}

/// Client 0: the stream. Ops: check number a at cut b (in deliveries), in order of arrival.
fn verdicts(r: &mut Rng, index: u64, s: &mut Scenario) {
    if index % 32 == 31 {
        // Over a batch, every scalar value in every form: those allowed in the form, all in one text, then one that is not.
        let form = (index / 32 % 4) as usize;
        let st = [Nfd, Nfkd, Nfc, Nfkc][form];
        let mut t = vec![];
        let mut last = 'x';
        for i in 0..400 {
            let c = match char::from_u32(textgen::perm(index / 128 * 400 + i)) {
                Some(c) => c,
                None => continue,
            };
            if model::qc(st, c) != model::Verdict::Yes {
                last = c
            } else {
                if ucd().class(c) > 0 {
                    t.push('a')
                }
                t.push(c)
            }
        }
        let mut c = Client { stages: vec![st], evs: vec![], ops: vec![], fused: false, hint: 0, entry: 0 };
        for k in [form, 6 + form, if form % 2 == 0 { 4 + form / 2 } else { form }] {
            c.ops.push(op(O::Verdict, k, t.len()))
        }
        t.push(last);
        c.ops.push(op(O::Verdict, form, t.len()));
        c.ops.push(op(O::Verdict, 6 + form, t.len()));
        c.evs = t.into_iter().map(Ev::Ch).collect();
        s.clients.push(c);
        return;
    }
    if index % 32 == 15 {
        // Over a batch, every scalar value that is allowed in NFD (in NFC), before ordered marks: too many for
        // the stream-safe limit, and out of order, if they were counted or compared across it.
        for (kind, st) in [(4, Nfd), (5, Nfc)] {
            let ok = |c: &char| model::qc(st, *c) == model::Verdict::Yes;
            let of = |r: &mut Rng, class: usize| loop {
                let c = *r.pick(&ucd().marks_by_class[class]);
                if ok(&c) && !ucd().has_decomposition(c, false) {
                    break c;
                }
            };
            let marks = [of(r, 220), of(r, 230)];
            let mut t = vec![];
            for i in 0..50 {
                if let Some(c) = char::from_u32(textgen::perm(index / 32 * 50 + i)).filter(ok) {
                    if ucd().class(c) > 0 {
                        continue;
                    }
                    t.push(c);
                    t.extend((0..17).map(|k| marks[(k / 8).min(1)]));
                }
            }
            let ops = [kind, 6 + kind].iter().map(|&k| op(O::Verdict, k, t.len())).collect();
            let evs = t.into_iter().map(Ev::Ch).collect();
            s.clients.push(Client { stages: vec![st], evs, ops, fused: false, hint: 0, entry: 0 });
        }
        return;
    }
    let mut t = textgen::text(r, index);
    if r.chance(1, 3) {
        near_limit(r, &mut t)
    }
    // Often text that is in some form already, so that verdicts are not all No at once.
    match r.below(8) {
        0..=4 => t = model::run(model::STAGES[r.below(4)], &t),
        5 => {
            t = model::run(Ss, &t);
            t = model::run(*r.pick(&[Nfd, Nfc]), &t)
        }
        _ => (),
    }
    if r.chance(1, 3) && !t.is_empty() {
        // ... and slightly off
        let k = r.below(t.len());
        match r.below(3) {
            0 => t.insert(k, *r.pick(&ucd().interesting)),
            1 => t.insert(k, *r.pick(&ucd().marks)),
            _ => {
                t.remove(k);
            }
        }
    }
    let m = Mix { stall: rate(r) / 4, reenter: if r.chance(1, 6) { 20 } else { 0 }, fault: if r.chance(1, 8) && t.len() < 2000 { 10 } else { 0 }, gap: 0 };
    let evs = feed(r, &t, m);
    let mut c = client(r, vec![Nfc], evs);
    let kinds: Vec<usize> = (0..VERDICTS).filter(|_| r.chance(1, 2)).collect();
    let mut cuts: Vec<usize> = (0..r.range(1, 4)).map(|_| r.range(0, t.len())).collect();
    cuts.push(t.len());
    cuts.sort();
    for cut in cuts {
        for &k in &kinds {
            c.ops.push(op(O::Verdict, k, cut))
        }
    }
    s.clients.push(c);
}

/// Client 0: the stored input; stages[0]: the form. Ops Pull a b: this life ends after a ticks; b: characters buffered
/// before the job looks for a boundary to commit at.
fn restarts(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let st = *r.pick(&[Nfd, Nfkd, Nfc, Nfkc, Nfc, Nfkc, Ss, Cjk]);
    let m = Mix { stall: if r.chance(1, 4) { 30 } else { 0 }, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, vec![st], evs);
    let each = *r.pick(&[3usize, 10, 40]);
    for _ in 0..r.range(0, 25) {
        c.ops.push(op(O::Pull, r.range(0, each * 4), r.below(each)));
    }
    s.clients.push(c);
}

fn stacks(r: &mut Rng, index: u64, s: &mut Scenario) {
    let mut t = textgen::text(r, index);
    if r.chance(1, 3) {
        near_limit(r, &mut t)
    }
    let stages: Vec<Stage> = (0..r.range(2, 4)).map(|_| *r.pick(&model::STAGES)).collect();
    let m = Mix { stall: rate(r) / 2, fault: if r.chance(1, 6) { 20 } else { 0 }, gap: if r.chance(1, 6) { 20 } else { 0 }, ..Mix::default() };
    let evs = feed(r, &t, m);
    let mut c = client(r, stages, evs);
    for _ in 0..r.range(0, 6) {
        c.ops.push(op(O::Pull, r.range(1, 12), 0));
        match r.below(8) {
            0 => c.ops.push(op(O::Clone, r.below(2), 0)),
            1 => c.ops.push(op(O::Display, 0, 0)),
            2 => c.ops.push(op(O::Switch, r.below(3), 0)),
            _ => (),
        }
    }
    c.ops.push(op(O::Post, 2, 0));
    s.params = vec![r.chance(1, 2) as u64];
    s.clients.push(c);
}

/// Client 0: characters to decompose. params: function (or 3 = all), unwind at call (0 = none, 99 = at each), re-enter.
fn callbacks(r: &mut Rng, index: u64, s: &mut Scenario) {
    let mut v = vec![];
    let f;
    if index % 2 == 0 {
        // every scalar value in turn, through every function, unwinding at every call
        for i in 0..256u64 {
            v.extend(char::from_u32(textgen::perm(index / 2 * 256 + i)));
        }
        f = 3;
        s.params = vec![f, 99, 0];
    } else {
        let u = ucd();
        let k = index / 2 * 24;
        for i in 0..24u64 {
            v.push(u.interesting[((k + i).wrapping_mul(7919) % u.interesting.len() as u64) as usize]);
        }
        for _ in 0..r.range(0, 8) {
            v.push(match r.below(4) {
                0 => *r.pick(&u.edges),
                1 => *r.pick(&u.cjk_list),
                2 => char::from_u32(0xAC00 + r.below(11172) as u32).unwrap(),
                _ => *r.pick(&u.decomposing),
            })
        }
        r.shuffle(&mut v);
        f = r.below(4) as u64;
        s.params = vec![f, *r.pick(&[0u64, 1, 2, 3, 4, 18, 99]), r.chance(1, 3) as u64];
    }
    let evs = v.into_iter().map(Ev::Ch).collect();
    s.clients.push(Client { stages: vec![Nfd], evs, ops: vec![], fused: false, hint: 0, entry: 0 });
}

fn consumption(r: &mut Rng, index: u64, s: &mut Scenario) {
    let t = textgen::text(r, index);
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 2])).map(|_| *r.pick(&model::STAGES)).collect();
    let loose = stages.iter().all(|s| !s.normalizes());
    let m = Mix { stall: if r.chance(1, 4) { 30 } else { 0 }, gap: if loose && r.chance(1, 4) { 20 } else { 0 }, ..Mix::default() };
    let evs = feed(r, &t, m);
    let gaps = evs.contains(&Ev::Gap);
    let mut c = client(r, stages, evs);
    if !gaps {
        c.entry = match r.below(20) {
            0..=6 => 0,
            7..=11 => 1,
            12..=17 => 2,
            _ => 3,
        };
        if c.entry == 3 && r.chance(1, 2) {
            let k = ucd().interesting[((index).wrapping_mul(7919) % ucd().interesting.len() as u64) as usize];
            c.evs = vec![Ev::Ch(k)]
        }
    }
    if !gaps && c.entry < 2 && r.chance(1, 8) {
        // A source without an end, as far as anyone can tell: only what it settles long before is asked for.
        c.hint = crate::world::ENDLESS;
        let all = crate::session::expected(&c);
        let mut left = all.iter().take_while(|i| (i.need as usize) < t.len()).count();
        for _ in 0..r.range(1, 8) {
            let n = if r.chance(1, 2) { r.range(0, 3) } else { r.range(0, left / 2) };
            if left < n + 3 {
                break;
            }
            left -= n;
            match r.below(4) {
                0 => c.ops.push(op(O::Hint, 0, 0)),
                1 => c.ops.push(op(O::Clone, r.below(2), 0)),
                _ => (),
            }
            c.ops.push(op(O::Pull, n, 0));
            c.ops.push(op(O::Hint, 0, 0));
        }
        s.clients.push(c);
        return;
    }
    let len = t.len();
    for _ in 0..r.range(0, 8) {
        let n = if r.chance(1, 2) { r.range(0, 3) } else { r.range(0, len + 2) };
        match r.below(9) {
            8 => c.ops.push(op(O::Through, n, r.below(14))),
            0..=1 => c.ops.push(op(O::Pull, n, 0)),
            2..=4 => c.ops.push(op(O::Partial, n, r.below(HOWS.len()))),
            5 => c.ops.push(op(O::Display, 0, 5 * r.below(8))),
            _ => (),
        }
        c.ops.push(op(O::Hint, 0, 0));
        if r.chance(1, 5) {
            c.ops.push(op(O::Clone, r.below(2), 0))
        }
    }
    for _ in 0..r.range(1, 3) {
        if r.chance(2, 3) {
            c.ops.push(op(O::Clone, 0, 0));
            c.ops.push(op(O::Finish, r.below(4), r.below(FINS.len())));
            c.ops.push(op(O::Switch, r.range(0, 5), 0));
        } else {
            c.ops.push(op(O::Finish, r.below(4), r.below(FINS.len())));
        }
        c.ops.push(op(O::Hint, 0, 0));
    }
    if r.chance(1, 2) {
        c.ops.push(op(O::Post, 1, 0));
        c.ops.push(op(O::Hint, 0, 0));
    }
    s.clients.push(c);
}

/// Client 0: undamaged text, client 1: what arrived.
fn damage(r: &mut Rng, index: u64, s: &mut Scenario) {
    let mut t = textgen::text(r, index);
    if r.chance(1, 2) {
        // anchors, so that there are segments
        let mut v = vec![];
        for c in t {
            v.push(c);
            if r.chance(1, 6) {
                v.push(*r.pick(&['a', ' ', '\u{4E00}', '-', '\u{1F600}']))
            }
        }
        t = v
    }
    let mut b: Vec<u8> = t.iter().collect::<String>().into_bytes();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let k = r.below(b.len());
        match r.below(8) {
            0 => b[k] ^= 1 << r.below(8),
            1 => b[k] = r.below(256) as u8,
            2 => {
                b.remove(k);
            }
            3 => {
                let x = b[k];
                b.insert(k, x)
            }
            4 => {
                let e = (k + r.range(1, 12)).min(b.len());
                b.drain(k..e);
            }
            5 => {
                let e = (k + r.range(1, 12)).min(b.len());
                let x: Vec<u8> = b[k..e].to_vec();
                b.splice(k..k, x);
            }
            6 => {
                let j = r.below(b.len());
                b.swap(k, j)
            }
            _ => {
                if r.chance(1, 3) {
                    b.truncate(k)
                } else {
                    for _ in 0..r.range(1, 4) {
                        b.insert(k, r.below(256) as u8)
                    }
                }
            }
        }
    }
    let d: Vec<char> = String::from_utf8_lossy(&b).chars().collect();
    let mk = |t: Vec<char>| Client { stages: vec![Nfc], evs: t.into_iter().map(Ev::Ch).collect(), ops: vec![], fused: false, hint: 0, entry: 0 };
    s.clients.push(mk(t));
    s.clients.push(mk(d));
    s.params = vec![(1 << r.below(6)) | (1 << r.below(6)) as u64];
}

/// Client 0 works through a text meant to be expensive; its pulls, checks and displays are metered.
fn steps(r: &mut Rng, index: u64, s: &mut Scenario) {
    let u = ucd();
    let st = Style::new(r, index);
    let long = r.chance(1, 3);
    let huge = r.chance(1, 250);
    let want = if huge { 200_000 } else if long { *r.pick(&[2_000usize, 6_000, 20_000, 40_000]) } else { r.range(0, 600) };
    let mut t: Vec<char> = vec![];
    while t.len() < want {
        let left = want - t.len();
        let n = match r.below(5) {
            0 => left,
            _ if huge => left,
            1 => left.min(r.range(1, 12)),
            2 => left.min(r.range(1, 3000)),
            _ => left.min(r.range(1, 200)),
        };
        if r.chance(1, 2) {
            t.push(*r.pick(&['a', 'x', '\u{915}', '\u{AC00}', '\u{1100}']))
        }
        let from = t.len();
        match r.below(12) {
            // one run of non-starters: random, descending, ascending, alternating, equal
            0..=4 => {
                let pool: Vec<char> = (0..r.range(1, 40)).map(|_| st.mark(r)).collect();
                t.extend((0..n).map(|_| *r.pick(&pool)));
                match r.below(5) {
                    0 => t[from..].sort_by_key(|c| 255 - u.class(*c)),
                    1 => t[from..].sort_by_key(|c| u.class(*c)),
                    2 => {
                        // ascending, then descending
                        t[from..].sort_by_key(|c| u.class(*c));
                        let h = from + n / 2;
                        t[h..].reverse()
                    }
                    _ => (),
                }
            }
            // characters that expand
            5 => {
                let c = *r.pick(&['\u{FDFA}', '\u{FB2C}', '\u{1FA7}', '\u{344}', '\u{1F82}', '\u{AC01}', '\u{3316}']);
                t.extend((0..n).map(|_| c))
            }
            // a starter with marks that never join, over and over; or that always do
            6 => {
                let (a, b, _) = *r.pick(&u.composites);
                while t.len() < from + n {
                    t.push(a);
                    for _ in 0..r.below(4) {
                        t.push(st.mark(r))
                    }
                    t.push(b)
                }
            }
            // starters only
            7 => {
                let c = *r.pick(&['a', '\u{4E00}', '\u{AC00}', '\u{1100}', '\u{1161}', '\u{F900}', '\u{1F600}', '\u{9C7}', '\u{34F}']);
                t.extend((0..n).map(|_| c))
            }
            8 => {
                let k = *r.pick(&u.interesting);
                t.extend((0..n).map(|_| k))
            }
            9 => {
                let p = *r.pick(&u.starter_pairs);
                for _ in 0..n / 2 + 1 {
                    t.extend([p.0, p.1])
                }
            }
            _ => {
                while t.len() < from + n.min(2000) {
                    st.segment(r, &mut t)
                }
            }
        }
    }
    if r.chance(1, 2) {
        t.push(*r.pick(&['z', '\u{4E00}', '\u{AC01}']))
    }
    let stages: Vec<Stage> = (0..*r.pick(&[1usize, 1, 1, 1, 2])).map(|_| *r.pick(&model::STAGES)).collect();
    let evs: Vec<Ev> = t.iter().map(|c| Ev::Ch(*c)).collect();
    let mut c = client(r, stages, evs);
    if r.chance(1, 4) {
        c.entry = 2
    }
    let all = t.len() * 20 + 10;
    match r.below(6) {
        0 => c.ops.push(op(O::Verdict, r.below(VERDICTS), t.len())),
        1 => c.ops.push(op(O::Text, r.below(11), 0)),
        2 => c.ops.push(op(O::Finish, r.below(4), r.below(FINS.len()))),
        3 => {
            for _ in 0..r.range(1, 30) {
                c.ops.push(op(O::Partial, r.range(0, t.len() / 8 + 3), *r.pick(&[0usize, 1, 2, 10])))
            }
            c.ops.push(op(O::Pull, all, 0))
        }
        4 => {
            c.ops.push(op(O::Pull, r.range(0, t.len()), 0));
            c.ops.push(op(*r.pick(&[O::Display, O::Clone]), 0, 0));
            c.ops.push(op(O::Pull, all, 0))
        }
        _ => c.ops.push(op(O::Pull, all, 0)),
    }
    if let Some(x) = c.ops.last_mut() {
        if x.k == O::Pull {
            *x = op(O::Drain, 0, 0)
        }
    }
    if r.chance(1, 3) {
        c.ops.push(op(O::Verdict, r.below(VERDICTS), r.range(0, t.len())))
    }
    s.clients.push(c);
}
