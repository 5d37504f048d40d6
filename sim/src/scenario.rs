//! A scenario is everything that determines one run, as explicit data: it can be generated, executed, shrunk, written to
//! a replay file and read back.
use crate::model::{Stage, NAMES, STAGES};
use std::fmt::Write;

/// What the source does at successive calls. After the last event it shows its end, for ever.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Ch(char),
    /// Shows a temporary end.
    Gap,
    /// Unwinds.
    Fault,
    /// Takes this many simulated milliseconds (other callers run) before the next event.
    Stall(u16),
    /// Calls back into the library before the next event.
    Reenter(u8),
}

macro_rules! ops { ($($id:ident $name:literal),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum O { $($id),* }
    pub const ONAMES: &[(&str, O)] = &[$(($name, O::$id)),*];
} }
ops! {
    Pull "pull", Drain "drain", Partial "partial", Finish "finish", Hint "hint", Clone "clone", Switch "switch",
    Drop "drop", Renew "renew", Assign "assign", Torn "torn", Through "through", Skip "skip", Share "share", Display "display", Post "post", Query "query", Verdict "verdict", Text "text",
}
/// One operation of a consumer: kind and two arguments.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: O,
    pub a: u32,
    pub b: u32,
}
pub fn op(k: O, a: usize, b: usize) -> Op {
    Op { k, a: a as u32, b: b as u32 }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Client {
    pub stages: Vec<Stage>,
    pub evs: Vec<Ev>,
    pub ops: Vec<Op>,
    pub fused: bool,
    pub hint: u8,
    /// 0 trait method on an iterator, 1 constructor, 2 &str, 3 char.
    pub entry: u8,
}
impl Client {
    pub fn text(&self) -> Vec<char> {
        self.evs.iter().filter_map(|e| if let Ev::Ch(c) = e { Some(*c) } else { None }).collect()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Scenario {
    pub prop: String,
    pub clients: Vec<Client>,
    pub sched: Vec<u8>,
    pub params: Vec<u64>,
}

fn ev_str(e: Ev) -> String {
    match e {
        Ev::Ch(c) => format!("{:x}", c as u32),
        Ev::Gap => "gap".into(),
        Ev::Fault => "fault".into(),
        Ev::Stall(t) => format!("stall:{}", t),
        Ev::Reenter(k) => format!("reenter:{}", k),
    }
}
fn ev_parse(s: &str) -> Option<Ev> {
    Some(match s {
        "gap" => Ev::Gap,
        "fault" => Ev::Fault,
        _ => {
            if let Some(t) = s.strip_prefix("stall:") {
                Ev::Stall(t.parse().ok()?)
            } else if let Some(t) = s.strip_prefix("reenter:") {
                Ev::Reenter(t.parse().ok()?)
            } else {
                Ev::Ch(char::from_u32(u32::from_str_radix(s, 16).ok()?)?)
            }
        }
    })
}
fn runs<T: PartialEq + Copy>(v: &[T], f: impl Fn(T) -> String) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1
        }
        let _ = write!(s, " {}", f(v[i]));
        if j - i > 1 {
            let _ = write!(s, "*{}", j - i);
        }
        i = j;
    }
    s
}
fn unruns<T: Copy>(it: std::str::SplitAsciiWhitespace, f: impl Fn(&str) -> Option<T>) -> Option<Vec<T>> {
    let mut v = vec![];
    for t in it {
        let (x, n) = match t.split_once('*') {
            Some((x, n)) => (x, n.parse().ok()?),
            None => (t, 1usize),
        };
        let x = f(x)?;
        v.extend(std::iter::repeat(x).take(n));
    }
    Some(v)
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "scenario {}", self.prop);
        for c in &self.clients {
            let st: Vec<&str> = c.stages.iter().map(|x| NAMES[*x as usize]).collect();
            let _ = writeln!(s, "client stages={} fused={} hint={} entry={}", st.join(","), c.fused as u8, c.hint, c.entry);
            let _ = writeln!(s, "source{}", runs(&c.evs, ev_str));
            let name = |k: O| ONAMES.iter().find(|x| x.1 == k).unwrap().0;
            let _ = writeln!(s, "ops{}", runs(&c.ops, |o: Op| format!("{}:{}:{}", name(o.k), o.a, o.b)));
        }
        let _ = writeln!(s, "schedule{}", runs(&self.sched, |x| x.to_string()));
        let _ = writeln!(s, "params{}", runs(&self.params, |x| x.to_string()));
        let _ = writeln!(s, "end");
        s
    }
    /// Parses all scenarios of a replay file.
    pub fn parse_all(text: &str) -> Option<Vec<Scenario>> {
        let mut out: Vec<Scenario> = vec![];
        let mut open = false;
        for l in text.lines() {
            let mut it = l.split_ascii_whitespace();
            match it.next() {
                Some("scenario") => {
                    out.push(Scenario { prop: it.next()?.into(), clients: vec![], sched: vec![], params: vec![] });
                    open = true;
                }
                Some("client") if open => {
                    let mut c = Client { stages: vec![], evs: vec![], ops: vec![], fused: false, hint: 0, entry: 0 };
                    for kv in it {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "stages" => {
                                for n in v.split(',').filter(|n| !n.is_empty()) {
                                    c.stages.push(STAGES[NAMES.iter().position(|x| *x == n)?]);
                                }
                            }
                            "fused" => c.fused = v == "1",
                            "hint" => c.hint = v.parse().ok()?,
                            "entry" => c.entry = v.parse().ok()?,
                            _ => return None,
                        }
                    }
                    out.last_mut()?.clients.push(c);
                }
                Some("source") if open => out.last_mut()?.clients.last_mut()?.evs = unruns(it, ev_parse)?,
                Some("ops") if open => {
                    out.last_mut()?.clients.last_mut()?.ops = unruns(it, |t| {
                        let mut p = t.split(':');
                        let n = p.next()?;
                        let k = ONAMES.iter().find(|x| x.0 == n)?.1;
                        Some(Op { k, a: p.next()?.parse().ok()?, b: p.next()?.parse().ok()? })
                    })?
                }
                Some("schedule") if open => out.last_mut()?.sched = unruns(it, |t| t.parse().ok())?,
                Some("params") if open => out.last_mut()?.params = unruns(it, |t| t.parse().ok())?,
                Some("end") => open = false,
                _ => (),
            }
        }
        Some(out)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        let mut f = |x: u64| h = crate::rng::mix(h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        for c in &self.clients {
            f(1);
            for s in &c.stages {
                f(*s as u64 + 16)
            }
            for e in &c.evs {
                f(match e {
                    Ev::Ch(c) => *c as u64,
                    Ev::Gap => 1 << 32,
                    Ev::Fault => 2 << 32,
                    Ev::Stall(t) => 3 << 32 | *t as u64,
                    Ev::Reenter(k) => 4 << 32 | *k as u64,
                })
            }
            for o in &c.ops {
                f((o.k as u64) << 56 | (o.a as u64) << 24 ^ o.b as u64)
            }
            f((c.fused as u64) << 16 | (c.hint as u64) << 8 | c.entry as u64);
        }
        for s in &self.sched {
            f(*s as u64 + 77)
        }
        for s in &self.params {
            f(*s)
        }
        h
    }
}
