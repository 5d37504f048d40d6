//! One consumer working through its script on one (stack of) adapter(s), every answer compared with the model.
use crate::adapters::{build, fin_expected, Handle, Input, Lent, FINS, HOWS, How};
use crate::heap;
use crate::model::{self, apply, Item};
use crate::scenario::{Client, Ev, Op, O};
use crate::world::{self, call, count, ev, note, Fault, Feed, Probe, Sink, SinkMode, Src, K, NESTED};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail })
}

#[derive(Clone, Copy, Default)]
pub struct Flags {
    /// Check read-ahead bounds (C05).
    pub need: bool,
    /// Check that the source is not asked again after its end (C06).
    pub no_repoll: bool,
    /// Check size hints (C17).
    pub hints: bool,
    /// Check the memory bound after each operation (C10).
    pub memory: bool,
    /// Allocation failures are expected to surface (C11 with failing allocations).
    pub alloc_faults: bool,
}

struct H {
    h: Option<Box<dyn Handle>>,
    j: usize,
    probe: Arc<Probe>,
    dead: bool,
    /// A call unwound after asking the source for what its answer needs.
    pending: bool,
}

pub struct Session {
    pub flags: Flags,
    hs: Vec<H>,
    cur: usize,
    want: Arc<Vec<Item>>,
    normalizing: bool,
    simulated: bool,
    fused: bool,
    cloneable: bool,
    /// Stream 0 is another session's: it may be looked at but not changed.
    lent: bool,
    /// The source claims to have no end.
    endless: bool,
    op_no: usize,
    ops: Vec<Op>,
    bound: i64,
    text: Vec<char>,
    stages: Vec<model::Stage>,
    _owned: Option<Box<str>>,
}

pub fn show(c: Option<char>) -> String {
    match c {
        None => "end".into(),
        Some(c) => format!("U+{:04X}", c as u32),
    }
}
pub fn show_text(s: &[char]) -> String {
    let mut v: Vec<String> = s.iter().take(60).map(|c| format!("{:X}", *c as u32)).collect();
    if s.len() > 60 {
        v.push(format!("...({})", s.len()))
    }
    v.join(" ")
}

/// Answers the model gives for a client's stack over its source.
pub fn expected(c: &Client) -> Vec<Item> {
    let mut src = vec![];
    if c.entry == 3 {
        let t = c.text();
        src = model::source_items(&t[..t.len().min(1)]);
    } else if c.entry == 2 {
        src = model::source_items(&c.text());
    } else {
        let mut n = 0;
        for e in &c.evs {
            let a = match e {
                Ev::Ch(x) => Some(*x),
                Ev::Gap => None,
                _ => continue,
            };
            n += 1;
            src.push(Item { c: a, need: n });
        }
        src.push(Item { c: None, need: n + 1 });
    }
    for &s in &c.stages {
        src = apply(s, &src);
    }
    src
}

impl Session {
    pub fn new(c: &Client, flags: Flags) -> Result<Session, Viol> {
        let want = Arc::new(expected(c));
        let fused = c.fused && !c.evs.contains(&Ev::Gap);
        let feed = Arc::new(Feed { evs: c.evs.clone(), hint: c.hint, fused });
        let mut owned = None;
        let (input, probe) = match c.entry {
            2 => {
                let s: Box<str> = c.text().into_iter().collect::<String>().into();
                // The session owns the string and drops the handles first (see `close`).
                let r: &'static str = unsafe { &*(&*s as *const str) };
                owned = Some(s);
                (Input::Str(r), Arc::new(Probe::default()))
            }
            3 if !c.text().is_empty() => (Input::Char(c.text()[0]), Arc::new(Probe::default())),
            _ => {
                let (s, p) = Src::new(feed);
                (Input::Sim(s), p)
            }
        };
        let simulated = matches!(input, Input::Sim(_));
        let h = call(|| build(&c.stages, input, fused, c.entry == 1));
        let bound = if flags.memory {
            let run = model::longest_run(&c.text()) as i64;
            (64 * (run + 40) + 2048) * c.stages.len() as i64
        } else {
            0
        };
        let mut s = Session {
            flags,
            hs: vec![H { h: None, j: 0, probe, dead: false, pending: false }],
            cur: 0,
            want,
            normalizing: c.stages.iter().any(|s| s.normalizes()),
            simulated,
            fused,
            cloneable: !c.stages.contains(&model::Ss),
            lent: false,
            endless: simulated && c.hint == world::ENDLESS,
            op_no: 0,
            ops: c.ops.clone(),
            bound,
            text: c.text(),
            stages: c.stages.clone(),
            _owned: owned,
        };
        match h {
            Ok(h) => s.hs[0].h = Some(h),
            Err(Fault::Alloc) if flags.alloc_faults => s.alloc_fault_kills(),
            Err(f) => return Err(s.fault("construction", f)),
        }
        Ok(s)
    }

    /// A session whose stream 0 is this one's current stream, by reference. None if this one has none to lend.
    pub fn lend(&self, c: &Client) -> Option<Session> {
        let h = &self.hs[self.cur];
        let lent = Lent::new(h.h.as_ref()?);
        Some(Session {
            flags: self.flags,
            hs: vec![H { h: Some(lent), j: h.j, probe: h.probe.clone(), dead: h.dead, pending: h.pending }],
            cur: 0,
            want: self.want.clone(),
            normalizing: self.normalizing,
            simulated: self.simulated,
            fused: self.fused,
            cloneable: self.cloneable,
            lent: true,
            endless: self.endless,
            op_no: 0,
            ops: c.ops.clone(),
            bound: self.bound,
            text: self.text.clone(),
            stages: self.stages.clone(),
            _owned: None,
        })
    }
    /// The next operation.
    pub fn next_op(&self) -> Option<Op> {
        self.ops.get(self.op_no).copied()
    }

    fn exp(&self, j: usize) -> Option<char> {
        self.want.get(j).and_then(|i| i.c)
    }
    /// What is left before the next end, from position `j`.
    fn rest(&self, j: usize) -> Vec<char> {
        self.want.get(j..).unwrap_or(&[]).iter().map_while(|i| i.c).collect()
    }

    fn wrong(&self, what: &str, j: usize, got: Option<char>) -> Viol {
        let want = self.exp(j);
        let class = match (got, want) {
            (None, Some(_)) => "output-missing",
            (Some(_), None) => "output-after-end",
            _ => "output-wrong",
        };
        Viol {
            class: class.into(),
            detail: format!("{} of {:?} over [{}]: answer {} is {}, want {}", what, self.stages, show_text(&self.text), j, show(got), show(want)),
        }
    }

    fn fault(&self, what: &str, f: Fault) -> Viol {
        let (class, d) = match f {
            Fault::Panic(m) => ("library-panic", m),
            Fault::Runaway => ("runaway", "source asked without bound".into()),
            Fault::Alloc => ("needs-heap", "allocation failure surfaced".into()),
            Fault::Source => ("unexpected-unwind", "source fault surfaced where the source was not called".into()),
            Fault::Sink => ("unexpected-unwind", "sink fault".into()),
            Fault::Callback => ("unexpected-unwind", "callback fault".into()),
        };
        Viol { class: class.into(), detail: format!("{} of {:?} over [{}]: {}", what, self.stages, show_text(&self.text), d) }
    }

    /// Checks after answers up to (excluding) `j` were given.
    fn after(&mut self, what: &str) -> Res {
        if let Some(n) = NESTED.lock().unwrap().take() {
            return viol(&n.0, n.1);
        }
        let h = &self.hs[self.cur];
        let last = h.j + h.pending as usize;
        if self.simulated && self.flags.need && last > 0 && last <= self.want.len() {
            let it = self.want[last - 1];
            if it.c.is_some() || !self.fused {
                count(K::NeedChecks);
                let asked = h.probe.answered.load(Relaxed);
                if asked > it.need {
                    return viol(
                        "read-ahead",
                        format!("{} of {:?} over [{}]: answer {} ({}) took {} source answers, settled after {}", what, self.stages, show_text(&self.text), last - 1, show(it.c), asked, it.need),
                    );
                }
            }
        }
        if self.simulated && self.flags.no_repoll && self.normalizing && !self.fused && h.probe.after_end.load(Relaxed) > 0 {
            return viol("asked-after-end", format!("{} of {:?} over [{}]: source asked again after it had ended", what, self.stages, show_text(&self.text)));
        }
        if self.flags.memory {
            count(K::BoundChecks);
            let n = self.hs.iter().filter(|h| h.h.is_some()).count() as i64 + 1;
            if heap::peak() > self.bound * n {
                return viol("memory-unbounded", format!("{} of {:?} over {} characters: {} bytes held (peak), bound {} for {} streams", what, self.stages, self.text.len(), heap::peak(), self.bound * n, n));
            }
        }
        Ok(())
    }

    fn pull(&mut self) -> Result<Option<char>, Viol> {
        let h = &mut self.hs[self.cur];
        let it = h.h.as_mut().unwrap();
        let faults = h.probe.faults.load(Relaxed);
        match call(|| it.next()) {
            Ok(got) => {
                count(K::Out);
                ev("out", got.map_or(0x110000, |c| c as u64), h.j as u64);
                let j = h.j;
                h.j += 1;
                h.pending = false;
                if got != self.exp(j) {
                    return Err(self.wrong("next()", j, got));
                }
                self.after("next()")?;
                Ok(got)
            }
            Err(Fault::Source) if h.probe.faults.load(Relaxed) > faults => {
                ev("caught", h.j as u64, 0);
                h.pending = true;
                self.after("next(), interrupted,")?;
                Ok(Some('\0'))
            }
            Err(Fault::Alloc) if self.flags.alloc_faults => {
                self.alloc_fault_kills();
                Ok(None)
            }
            Err(f) => Err(self.fault("next()", f)),
        }
    }

    fn alloc_fault_kills(&mut self) {
        count(K::AllocFail);
        ev("alloc-fails", self.cur as u64, self.hs[self.cur].j as u64);
        let h = self.hs[self.cur].h.take();
        self.hs[self.cur].dead = true;
        drop_handle(h);
    }

    fn alive(&self) -> bool {
        self.hs[self.cur].h.is_some()
    }

    /// Performs the next operation. Ok(false) when none is left.
    pub fn step(&mut self) -> Result<bool, Viol> {
        let o = match self.ops.get(self.op_no) {
            None => return Ok(false),
            Some(o) => *o,
        };
        self.op_no += 1;
        ev("op", o.k as u64, (o.a as u64) << 20 ^ o.b as u64);
        note(|| format!("{:?} {} {} (stream {}, {} answers so far)", o.k, o.a, o.b, self.cur, self.hs[self.cur].j));
        self.state_probe(o);
        if self.lent && self.cur == 0 && !matches!(o.k, O::Hint | O::Clone | O::Switch | O::Drop | O::Display | O::Query | O::Verdict | O::Text) {
            return Ok(true);
        }
        match o.k {
            O::Pull => {
                for _ in 0..o.a {
                    if !self.alive() {
                        break;
                    }
                    self.pull()?;
                }
            }
            O::Drain => {
                let mut budget = self.want.len() * 2 + 4096;
                while self.alive() && self.pull()?.is_some() {
                    budget -= 1;
                    if budget == 0 {
                        return viol("runaway", "drain does not end".into());
                    }
                }
            }
            O::Post => {
                // Pull to the last end, then some more.
                while self.alive() && self.hs[self.cur].j < self.want.len() {
                    self.pull()?;
                }
                for _ in 0..o.a {
                    if self.alive() {
                        self.pull()?;
                    }
                }
            }
            O::Partial if self.alive() => {
                let how = HOWS[o.b as usize % HOWS.len()];
                let n = o.a as usize;
                count(K::PartialOps);
                let h = &mut self.hs[self.cur];
                let it = h.h.as_mut().unwrap();
                match call(|| it.partial(how, n)) {
                    Ok(got) => {
                        ev("partial", got.len() as u64, got.last().map_or(7, |c| c.map_or(0x110000, |c| c as u64)));
                        if how == How::Nth {
                            // skips n answers, unless the end comes first
                            let mut j = h.j;
                            for _ in 0..n {
                                let e = self.want.get(j).and_then(|i| i.c);
                                j += 1;
                                if e.is_none() {
                                    j -= 1;
                                    break;
                                }
                            }
                            let h = &mut self.hs[self.cur];
                            h.j = j + 1;
                            if got[0] != self.exp(j) {
                                return Err(self.wrong("nth()", j, got[0]));
                            }
                        } else {
                            for g in got {
                                let j = self.hs[self.cur].j;
                                self.hs[self.cur].j += 1;
                                if g != self.exp(j) {
                                    return Err(self.wrong(&format!("{:?}({})", how, n), j, g));
                                }
                            }
                        }
                        self.after("partial consumption")?;
                    }
                    Err(f) => return Err(self.fault(&format!("{:?}({})", how, n), f)),
                }
            }
            O::Finish if self.alive() => {
                let fin = FINS[o.b as usize % FINS.len()];
                let n = o.a as usize;
                count(K::Finish);
                let j = self.hs[self.cur].j;
                let rest = self.rest(j);
                let want = fin_expected(fin, n, &rest);
                let (probe, faults) = (self.hs[self.cur].probe.clone(), self.hs[self.cur].probe.faults.load(Relaxed));
                let it = self.hs[self.cur].h.take().unwrap();
                match call(|| it.finish(fin, n, &rest)) {
                    Ok(got) => {
                        ev("finish", got.len() as u64, got.last().map_or(0, |c| *c as u64));
                        if got != want {
                            return viol("consumption-differs", format!("{:?}({}) of {:?} over [{}] from answer {}: [{}], want [{}]", fin, n, self.stages, show_text(&self.text), j, show_text(&got), show_text(&want)));
                        }
                        drop(got);
                        if let Some(n) = NESTED.lock().unwrap().take() {
                            return viol(&n.0, n.1);
                        }
                    }
                    // The adapter is gone with it.
                    Err(Fault::Source) if probe.faults.load(Relaxed) > faults => ev("caught", j as u64, 0),
                    Err(f) => return Err(self.fault(&format!("{:?}", fin), f)),
                }
            }
            O::Hint if self.alive() => {
                let h = &self.hs[self.cur];
                let it = h.h.as_ref().unwrap();
                match call(|| it.size_hint()) {
                    Ok((lo, hi)) => {
                        let r = self.rest(h.j).len();
                        count(K::Hints);
                        ev("hint", lo as u64, hi.map_or(u64::MAX, |h| h as u64));
                        if self.flags.hints && self.endless {
                            if hi.is_some() {
                                return viol("size-hint", format!("size_hint of {:?} over an endless source [{}...] at answer {}: ({}, {:?})", self.stages, show_text(&self.text), h.j, lo, hi));
                            }
                        } else if self.flags.hints && (lo > r || hi.map_or(false, |h| r > h)) {
                            return viol("size-hint", format!("size_hint of {:?} over [{}] at answer {}: ({}, {:?}), but {} characters follow", self.stages, show_text(&self.text), h.j, lo, hi, r));
                        }
                    }
                    Err(f) => return Err(self.fault("size_hint()", f)),
                }
            }
            O::Clone if self.alive() && self.cloneable && self.hs.len() < 6 => {
                world::LAST_CLONE.with(|l| *l.borrow_mut() = None);
                let h = &self.hs[self.cur];
                let it = h.h.as_ref().unwrap();
                match call(|| it.try_clone()) {
                    Ok(Some(c)) => {
                        count(K::Clone);
                        let probe = world::LAST_CLONE.with(|l| l.borrow_mut().take()).unwrap_or_else(|| h.probe.clone());
                        let j = h.j;
                        ev("clone", self.hs.len() as u64, j as u64);
                        let pending = h.pending;
                        self.hs.push(H { h: Some(c), j, probe, dead: false, pending });
                        if o.a & 1 == 1 {
                            self.cur = self.hs.len() - 1
                        }
                    }
                    Ok(None) => (),
                    Err(Fault::Alloc) if self.flags.alloc_faults => {
                        count(K::AllocFail);
                        ev("clone-alloc-fails", 0, 0);
                    }
                    Err(f) => return Err(self.fault("clone()", f)),
                }
            }
            O::Switch => self.cur = o.a as usize % self.hs.len(),
            O::Drop => {
                let i = o.a as usize % self.hs.len();
                if self.hs[i].h.is_some() {
                    count(K::Drop);
                    ev("drop", i as u64, self.hs[i].j as u64);
                    let h = self.hs[i].h.take();
                    drop_handle(h);
                }
            }
            // An existing stream becomes a copy of another one.
            O::Assign if self.alive() && self.cloneable => {
                let i = o.a as usize % self.hs.len();
                if i != self.cur && self.hs[i].h.is_some() {
                    world::LAST_CLONE.with(|l| *l.borrow_mut() = None);
                    let mut to = self.hs[self.cur].h.take().unwrap();
                    let from = &self.hs[i];
                    let r = call(|| to.try_assign(&**from.h.as_ref().unwrap()));
                    match r {
                        Ok(false) => self.hs[self.cur].h = Some(to),
                        Ok(true) => {
                            count(K::Clone);
                            ev("assign", self.cur as u64, from.j as u64);
                            let probe = world::LAST_CLONE.with(|l| l.borrow_mut().take()).unwrap_or_else(|| from.probe.clone());
                            let h = H { h: Some(to), j: from.j, probe, dead: from.dead, pending: from.pending };
                            self.hs[self.cur] = h;
                        }
                        // What it was assigned to is lost, as far as the simulator is concerned.
                        Err(Fault::Alloc) if self.flags.alloc_faults => {
                            count(K::AllocFail);
                            ev("assign-alloc-fails", 0, 0);
                            drop_handle(Some(to))
                        }
                        Err(f) => return Err(self.fault("clone_from()", f)),
                    }
                }
            }
            // The stream is replaced by a clone of itself, again and again.
            O::Renew if self.cloneable => {
                for _ in 0..o.a {
                    for _ in 0..o.b {
                        if self.alive() {
                            self.pull()?;
                        }
                    }
                    if !self.alive() {
                        break;
                    }
                    world::LAST_CLONE.with(|l| *l.borrow_mut() = None);
                    let h = &mut self.hs[self.cur];
                    match call(|| h.h.as_ref().unwrap().try_clone()) {
                        Ok(Some(c)) => {
                            count(K::Clone);
                            ev("renew", self.cur as u64, h.j as u64);
                            if let Some(p) = world::LAST_CLONE.with(|l| l.borrow_mut().take()) {
                                h.probe = p
                            }
                            let old = h.h.replace(c);
                            drop_handle(old);
                        }
                        Ok(None) => break,
                        Err(Fault::Alloc) if self.flags.alloc_faults => {
                            count(K::AllocFail);
                            ev("clone-alloc-fails", 0, 0);
                        }
                        Err(f) => return Err(self.fault("clone()", f)),
                    }
                }
            }
            O::Display if self.alive() && self.cloneable => self.display(o)?,
            O::Through if self.alive() && o.a > 0 => self.through(o)?,
            O::Skip if self.alive() => self.skip(o.a as usize)?,
            O::Torn if self.alive() && self.cloneable => self.torn(o)?,
            O::Partial | O::Finish | O::Hint | O::Clone | O::Renew | O::Assign | O::Torn | O::Through | O::Skip | O::Share | O::Display => (),
            O::Query => crate::queries::query(o.a, o.b)?,
            O::Verdict => crate::queries::verdict_of_text(o.a, &self.text[..(o.b as usize).min(self.text.len())])?,
            O::Text => crate::queries::whole(o.a, &self.text)?,
        }
        if self.flags.memory {
            self.after("operation")?;
        }
        Ok(true)
    }

    fn display(&mut self, o: Op) -> Res {
        let mode = [SinkMode::Good, SinkMode::ErrOnce, SinkMode::ErrForever, SinkMode::Unwind, SinkMode::Reenter][o.b as usize % 5];
        count(K::Display);
        let h = &self.hs[self.cur];
        let it = h.h.as_ref().unwrap();
        let mut sink = Sink::new(mode, o.a as usize);
        let before = (h.probe.answered.load(Relaxed), h.probe.after_end.load(Relaxed), h.probe.faults.load(Relaxed));
        let r = call(|| it.display(&mut sink, (o.a ^ o.b / 5) as u8));
        let (answered, ended, faults) = before;
        let full: String = self.rest(h.j).into_iter().collect();
        let ctx = |s: &str| format!("display ({:?} at byte {}) of {:?} over [{}] from answer {}: {}", mode, o.a, self.stages, show_text(&self.text), h.j, s);
        if (h.probe.answered.load(Relaxed), h.probe.after_end.load(Relaxed), h.probe.faults.load(Relaxed)) != (answered, ended, faults) {
            return viol("display-touches-source", ctx("it consumed the adapter's own source"));
        }
        ev("displayed", sink.got.len() as u64, sink.failed as u64);
        if sink.after_failure {
            return viol("write-after-failure", ctx("it wrote on after the sink had failed"));
        }
        let must_fail = matches!(mode, SinkMode::ErrOnce | SinkMode::ErrForever | SinkMode::Unwind) && full.len() > o.a as usize;
        let accepted = {
            let mut k = if must_fail { o.a as usize } else { full.len() };
            while !full.is_char_boundary(k) {
                k -= 1
            }
            &full[..k]
        };
        let prefix_ok = full.starts_with(&sink.got);
        match r {
            Ok(None) => return Ok(()),
            Ok(Some(res)) => {
                if sink.got != accepted {
                    return viol("display-wrong", ctx(&format!("sink has {:?}, want {:?}", sink.got, accepted)));
                }
                if res.is_ok() == must_fail {
                    return viol(if must_fail { "sink-failure-swallowed" } else { "display-fails" }, ctx(&format!("result {:?}", res)));
                }
            }
            Err(Fault::Sink) if must_fail && mode == SinkMode::Unwind => {
                if sink.got != accepted {
                    return viol("display-wrong", ctx(&format!("sink has {:?}, want {:?}", sink.got, accepted)));
                }
            }
            // The display's own copy of the source unwound: what was written is still a prefix.
            Err(Fault::Source) if prefix_ok => ev("caught", 1, 0),
            Err(Fault::Alloc) if self.flags.alloc_faults && prefix_ok => {
                count(K::AllocFail);
                ev("display-alloc-fails", 0, 0);
            }
            Err(f) => return Err(self.fault("display", f)),
        }
        let ctx = ();
        let _ = ctx;
        self.after("display")
    }

    /// A closure takes answers until it has enough, or unwinds, or the source does.
    fn through(&mut self, o: Op) -> Res {
        let (how, fail, n) = (o.b as usize / 2, o.b & 1 == 1, o.a as usize);
        let name = format!("consumption by closure (kind {}, {} answers, {})", how % crate::adapters::THROUGH, n, if fail { "unwinding" } else { "stopping" });
        count(K::PartialOps);
        let h = &mut self.hs[self.cur];
        let faults = h.probe.faults.load(Relaxed);
        let mut out = Vec::with_capacity(n.min(self.want.len() * 2) + 4096);
        let it = h.h.as_mut().unwrap();
        let r = call(|| it.through(how, n, fail, &mut out));
        ev("through", out.len() as u64, out.last().map_or(7, |c| c.map_or(0x110000, |c| c as u64)));
        let got = out.len();
        for g in out {
            let j = self.hs[self.cur].j;
            self.hs[self.cur].j += 1;
            self.hs[self.cur].pending = false;
            if g != self.exp(j) {
                return Err(self.wrong(&name, j, g));
            }
        }
        match r {
            Ok(()) if fail && got == n && self.exp(self.hs[self.cur].j - 1).is_some() => return viol("unwinding-swallowed", format!("{} of {:?} over [{}]: the closure unwound, but the call returned", name, self.stages, show_text(&self.text))),
            Ok(()) => (),
            Err(Fault::Callback) if fail && got == n => (),
            Err(Fault::Source) if self.hs[self.cur].probe.faults.load(Relaxed) > faults => self.hs[self.cur].pending = true,
            Err(Fault::Alloc) if self.flags.alloc_faults => {
                self.alloc_fault_kills();
                return Ok(());
            }
            Err(f) => return Err(self.fault(&name, f)),
        }
        self.after(&name)
    }

    /// Skips `n` answers. How far it had got when the source unwound shows in what is left.
    fn skip(&mut self, n: usize) -> Res {
        let name = format!("nth({})", n);
        count(K::PartialOps);
        let j = self.hs[self.cur].j;
        let faults = self.hs[self.cur].probe.faults.load(Relaxed);
        let it = self.hs[self.cur].h.as_mut().unwrap();
        // Where it ends up: n answers on, or behind the end.
        let at = (j..j + n).find(|&k| self.want.get(k).and_then(|i| i.c).is_none()).unwrap_or(j + n);
        match call(|| it.partial(How::Nth, n)) {
            Ok(got) => {
                ev("skip", n as u64, got[0].map_or(0x110000, |c| c as u64));
                self.hs[self.cur].j = at + 1;
                self.hs[self.cur].pending = false;
                if got[0] != self.exp(at) {
                    return Err(self.wrong(&name, at, got[0]));
                }
                self.after(&name)
            }
            Err(Fault::Source) if self.hs[self.cur].probe.faults.load(Relaxed) > faults => {
                let mut left = vec![];
                // (A source that is asked for ever ends that by itself.)
                let budget = self.want.len() * 2 + 4096;
                while left.len() < budget {
                    let it = self.hs[self.cur].h.as_mut().unwrap();
                    match call(|| it.next()) {
                        Ok(Some(c)) => left.push(c),
                        Ok(None) => break,
                        Err(Fault::Source) => (),
                        Err(f) => return Err(self.fault(&name, f)),
                    }
                }
                let all = self.rest(j);
                ev("skip-caught", n as u64, left.len() as u64);
                self.hs[self.cur].j = j + all.len() + 1;
                self.hs[self.cur].pending = false;
                if !all.ends_with(&left) || all.len() - left.len() > n {
                    return viol("output-wrong", format!("{} of {:?} over [{}] from answer {}, the source unwinding, leaves [{}], want [{}] less at most {}", name, self.stages, show_text(&self.text), j, show_text(&left), show_text(&all), n));
                }
                self.after(&name)
            }
            Err(f) => Err(self.fault(&name, f)),
        }
    }

    /// The source unwinds while it is being copied, for a clone, a display or an assignment.
    fn torn(&mut self, o: Op) -> Res {
        let from = self.cur;
        let (mut what, to) = (o.a % 3, (o.a / 3) as usize % self.hs.len());
        if what == 2 && (to == from || self.hs[to].h.is_none() || self.lent) {
            what = 0
        }
        let name = ["clone()", "display", "clone_from()"][what as usize];
        let h = &self.hs[from];
        let before = (h.probe.answered.load(Relaxed), h.probe.after_end.load(Relaxed), h.probe.faults.load(Relaxed));
        let full: String = self.rest(h.j).into_iter().collect();
        let mut sink = Sink::new(SinkMode::Good, 0);
        let mut target = if what == 2 { self.hs[to].h.take() } else { None };
        let it = self.hs[from].h.as_ref().unwrap();
        world::TEAR.set(1 + o.b);
        let r = call(|| match what {
            0 => it.try_clone().map(|_| ()),
            1 => it.display(&mut sink, 0).map(|_| ()),
            _ => Some(()).filter(|_| target.as_mut().unwrap().try_assign(&**it)),
        });
        let left = world::TEAR.replace(0);
        // What was to be overwritten is in no particular state now.
        drop_handle(target);
        ev("torn", what as u64, sink.got.len() as u64);
        let h = &self.hs[from];
        if (h.probe.answered.load(Relaxed), h.probe.after_end.load(Relaxed), h.probe.faults.load(Relaxed)) != before {
            return viol("copy-touches-source", format!("{} of {:?} over [{}] consumed the adapter's own source", name, self.stages, show_text(&self.text)));
        }
        if !full.starts_with(&sink.got) {
            return viol("display-wrong", format!("interrupted display of {:?} over [{}] from answer {}: [{}]", self.stages, show_text(&self.text), h.j, sink.got));
        }
        match r {
            Ok(_) if left > 0 || !self.simulated => (),
            Ok(_) => return viol("unwinding-swallowed", format!("{} of {:?} over [{}]: the source unwound while being copied, but the call returned", name, self.stages, show_text(&self.text))),
            Err(Fault::Source) => (),
            Err(Fault::Alloc) if self.flags.alloc_faults => {
                count(K::AllocFail);
                ev("torn-alloc-fails", 0, 0);
            }
            Err(f) => return Err(self.fault(name, f)),
        }
        self.after(name)
    }

    /// Abstract state reached, for the coverage measure.
    fn state_probe(&self, o: Op) {
        let h = &self.hs[self.cur];
        let asked = h.probe.answered.load(Relaxed) as usize;
        let lag = asked.saturating_sub(h.j);
        let b = |n: usize| if n < 8 { n as u64 } else { 8 + (usize::BITS - n.leading_zeros()) as u64 };
        let near: Vec<u8> = self.text[..asked.min(self.text.len())].iter().rev().take(3).map(|&c| crate::ucd::ucd().class(c)).collect();
        let mut s = self.stages.iter().fold(1u64, |a, s| a * 7 + *s as u64);
        for n in near {
            s = s.wrapping_mul(256) + n as u64;
        }
        let end = self.want.len().saturating_sub(h.j).min(3) as u64;
        let x = crate::rng::mix(s ^ b(lag) << 40 ^ b(h.j.saturating_sub(asked)) << 46 ^ (o.k as u64) << 52 ^ (self.hs.len() as u64) << 57 ^ end << 60 ^ (h.dead as u64) << 63);
        crate::stats::state(x);
    }

    /// Ends the session: drops what is left; no library memory may remain.
    pub fn close(&mut self) -> Res {
        for i in 0..self.hs.len() {
            let h = self.hs[i].h.take();
            drop_handle(h);
        }
        Ok(())
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        for i in 0..self.hs.len() {
            let h = self.hs[i].h.take();
            drop_handle(h);
        }
    }
}

fn drop_handle(h: Option<Box<dyn Handle>>) {
    if let Some(h) = h {
        // A panic while dropping is the library's; it must not take the simulator down with it.
        if let Err(Fault::Panic(m)) = call(move || drop(h)) {
            let mut n = NESTED.lock().unwrap();
            if n.is_none() {
                *n = Some(("library-panic".into(), format!("dropping a stream: {}", m)))
            }
        }
    }
}
