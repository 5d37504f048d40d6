//! Minimises a failing scenario: drops clients, events, operations, stages, schedule entries and parameters, and
//! simplifies characters and arguments, as long as the same class of violation remains.
use crate::scenario::{Ev, Scenario};
use std::time::Instant;

pub struct Budget {
    pub until: Instant,
    pub tries: u32,
}

/// `fails(s)`: does the scenario still fail in the same way?
pub fn shrink(start: &Scenario, b: &mut Budget, fails: &mut dyn FnMut(&Scenario) -> bool) -> Scenario {
    let mut best = start.clone();
    let mut ok = |s: &Scenario, b: &mut Budget| -> bool {
        if b.tries == 0 || Instant::now() > b.until {
            return false;
        }
        b.tries -= 1;
        fails(s)
    };
    loop {
        let before = best.clone();
        // whole clients
        let mut i = 0;
        while best.clients.len() > 1 && i < best.clients.len() {
            let mut s = best.clone();
            s.clients.remove(i);
            if ok(&s, b) {
                best = s
            } else {
                i += 1
            }
        }
        let get = |s: &Scenario, _c: usize| s.sched.len();
        chunks(&mut best, b, &mut ok, 0, &get, &|s, _c, a, e| {
            s.sched.drain(a..e);
        });
        if best.params.len() > 1 {
            chunks(&mut best, b, &mut ok, 0, &|s, _| s.params.len() - 1, &|s, _, a, e| {
                // a preemption left out: the next one stays where it was
                let d: u64 = s.params.drain(a + 1..e + 1).map(|x| x >> 4).sum();
                if s.prop == "C12" {
                    if let Some(x) = s.params.get_mut(a + 1) {
                        *x += d << 4
                    }
                }
            });
        }
        for c in 0..best.clients.len() {
            chunks(&mut best, b, &mut ok, c, &|s, c| s.clients[c].evs.len(), &|s, c, a, e| {
                s.clients[c].evs.drain(a..e);
            });
            chunks(&mut best, b, &mut ok, c, &|s, c| s.clients[c].ops.len(), &|s, c, a, e| {
                s.clients[c].ops.drain(a..e);
            });
            let mut i = 0;
            while best.clients[c].stages.len() > 1 && i < best.clients[c].stages.len() {
                let mut s = best.clone();
                s.clients[c].stages.remove(i);
                if ok(&s, b) {
                    best = s
                } else {
                    i += 1
                }
            }
            for f in 0..3 {
                let mut s = best.clone();
                match f {
                    0 => s.clients[c].fused = false,
                    1 => s.clients[c].hint = 0,
                    _ => s.clients[c].entry = 0,
                }
                if s != best && ok(&s, b) {
                    best = s
                }
            }
            // simpler arguments
            for i in 0..best.clients[c].ops.len() {
                for f in 0..2 {
                    loop {
                        let cur = if f == 0 { best.clients[c].ops[i].a } else { best.clients[c].ops[i].b };
                        let mut better = None;
                        for x in [0, 1, cur / 2, cur.saturating_sub(1)] {
                            if x >= cur {
                                continue;
                            }
                            let mut s = best.clone();
                            let o = &mut s.clients[c].ops[i];
                            if f == 0 {
                                o.a = x
                            } else {
                                o.b = x
                            }
                            if ok(&s, b) {
                                better = Some(s);
                                break;
                            }
                        }
                        match better {
                            Some(s) => best = s,
                            None => break,
                        }
                    }
                }
            }
            // simpler characters
            for i in 0..best.clients[c].evs.len() {
                if let Ev::Ch(x) = best.clients[c].evs[i] {
                    for y in ['a', '\u{301}', '\u{316}', '\u{1161}'] {
                        if y >= x {
                            continue;
                        }
                        let mut s = best.clone();
                        s.clients[c].evs[i] = Ev::Ch(y);
                        if ok(&s, b) {
                            best = s;
                            break;
                        }
                    }
                }
            }
        }
        for i in 0..best.sched.len() {
            if best.sched[i] != 0 {
                let mut s = best.clone();
                s.sched[i] = 0;
                if ok(&s, b) {
                    best = s
                }
            }
        }
        if best == before || b.tries == 0 || Instant::now() > b.until {
            return best;
        }
    }
}

type Ok<'a> = dyn FnMut(&Scenario, &mut Budget) -> bool + 'a;
fn chunks(best: &mut Scenario, b: &mut Budget, ok: &mut Ok, c: usize, len: &dyn Fn(&Scenario, usize) -> usize, cut: &dyn Fn(&mut Scenario, usize, usize, usize)) {
    let mut size = len(best, c).max(1);
    loop {
        let mut i = 0;
        while i < len(best, c) {
            let e = (i + size).min(len(best, c));
            let mut s = best.clone();
            cut(&mut s, c, i, e);
            if ok(&s, b) {
                *best = s
            } else {
                i = e
            }
        }
        if size == 1 {
            return;
        }
        size /= 2;
    }
}
