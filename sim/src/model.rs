//! Executable reference model: UAX #15 (normal forms, quick check, Stream-Safe Text Process) read literally, on whole
//! sequences, plus the bound on read-ahead each output permits.
use crate::ucd::{ucd, Ucd};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Stage {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
    Cjk,
    Ss,
}
pub use Stage::*;
pub const STAGES: [Stage; 6] = [Nfd, Nfkd, Nfc, Nfkc, Cjk, Ss];
pub const NAMES: [&str; 6] = ["nfd", "nfkd", "nfc", "nfkc", "cjk", "ss"];

impl Stage {
    pub fn normalizes(self) -> bool {
        !matches!(self, Cjk | Ss)
    }
    pub fn composes(self) -> bool {
        matches!(self, Nfc | Nfkc)
    }
    pub fn compat(self) -> bool {
        matches!(self, Nfkd | Nfkc)
    }
}

/// One answer of a stream: a character or an end, and the number of source answers that may be needed to give it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Item {
    pub c: Option<char>,
    pub need: u32,
}

const CGJ: char = '\u{34F}';
pub const MAX_NS: usize = 30;

/// Answers of `stage` over a source giving the answers `src` (then ends for ever). `src` ends with an end.
pub fn apply(stage: Stage, src: &[Item]) -> Vec<Item> {
    let u = ucd();
    let mut out = Vec::with_capacity(src.len() + 4);
    match stage {
        Cjk => {
            for &i in src {
                match i.c.and_then(|c| u.cjk(c)) {
                    Some((a, b)) => {
                        out.push(Item { c: Some(a), ..i });
                        out.push(Item { c: Some(b), ..i });
                    }
                    None => out.push(i),
                }
            }
        }
        Ss => {
            // UAX15-D4: count the non-starters at the end of the NFKD of what was output so far.
            let mut count = 0;
            let mut d = vec![];
            for &i in src {
                if let Some(c) = i.c {
                    d.clear();
                    u.decompose(c, true, &mut d);
                    let lead = d.iter().take_while(|&&x| u.class(x) != 0).count();
                    if count + lead > MAX_NS {
                        out.push(Item { c: Some(CGJ), ..i });
                        count = 0;
                    }
                    count = if lead == d.len() { count + lead } else { d.iter().rev().take_while(|&&x| u.class(x) != 0).count() };
                }
                out.push(i);
            }
        }
        _ => {
            let end = src.iter().position(|i| i.c.is_none()).unwrap();
            let end_need = src[end].need;
            // Full decomposition, then canonical ordering: stable by class within runs of non-starters.
            let mut d: Vec<(char, u8, u32)> = Vec::with_capacity(end + end / 2);
            let mut buf = vec![];
            for i in &src[..end] {
                buf.clear();
                u.decompose(i.c.unwrap(), stage.compat(), &mut buf);
                d.extend(buf.iter().map(|&c| (c, u.class(c), i.need)));
            }
            let mut need = end_need;
            for x in d.iter_mut().rev() {
                if x.1 == 0 {
                    need = x.2;
                }
                x.2 = need; // the first starter at or after this position, or the end
            }
            let mut i = 0;
            while i < d.len() {
                if d[i].1 == 0 {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j < d.len() && d[j].1 != 0 {
                    j += 1;
                }
                d[i..j].sort_by_key(|x| x.1);
                i = j;
            }
            if stage.composes() {
                d = compose_all(u, &d, end_need);
            }
            out.extend(d.iter().map(|x| Item { c: Some(x.0), need: x.2 }));
            out.push(Item { c: None, need: end_need });
        }
    }
    out
}

/// Canonical Composition Algorithm (D117) on a canonically ordered sequence.
fn compose_all(u: &Ucd, d: &[(char, u8, u32)], end_need: u32) -> Vec<(char, u8, u32)> {
    let mut out: Vec<(char, u8, u32)> = Vec::with_capacity(d.len());
    let mut starter: Option<usize> = None;
    for &(c, class, need) in d {
        if let Some(s) = starter {
            // Blocked (D115) if some character in between is a starter or has a class not below ours. Between the last
            // starter and here there are only non-starters, in ascending order of class.
            let blocked = s + 1 < out.len() && out[out.len() - 1].1 >= class;
            if !blocked {
                if let Some(r) = u.compose(out[s].0, c) {
                    out[s].0 = r;
                    continue;
                }
            }
        }
        if class == 0 {
            starter = Some(out.len());
        }
        out.push((c, class, need));
    }
    // A starter and its marks are settled once the next starter that did not join has arrived.
    let first = out.iter().position(|x| x.1 == 0).unwrap_or(out.len());
    let mut settled = end_need;
    for x in out[first..].iter_mut().rev() {
        let own = x.2;
        x.2 = settled;
        if x.1 == 0 {
            settled = own;
        }
    }
    out
}

pub fn nfc_of_decomposed(u: &Ucd, d: &[char]) -> Vec<char> {
    let s: Vec<(char, u8, u32)> = d.iter().map(|&c| (c, u.class(c), 0)).collect();
    compose_all(u, &s, 0).iter().map(|x| x.0).collect()
}

pub fn source_items(s: &[char]) -> Vec<Item> {
    let mut v: Vec<Item> = s.iter().enumerate().map(|(i, &c)| Item { c: Some(c), need: i as u32 + 1 }).collect();
    v.push(Item { c: None, need: s.len() as u32 + 1 });
    v
}

pub fn run(stage: Stage, s: &[char]) -> Vec<char> {
    apply(stage, &source_items(s)).iter().filter_map(|i| i.c).collect()
}

pub fn run_all(stages: &[Stage], s: &[char]) -> Vec<char> {
    let mut v = s.to_vec();
    for &st in stages {
        v = run(st, &v);
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Verdict {
    Yes,
    Maybe,
    No,
}

/// Can `c`, or what it begins with when decomposed, join a preceding character?
fn interacts(u: &Ucd, c: char) -> bool {
    let mut d = vec![];
    u.decompose(c, false, &mut d);
    u.is_second(c) || u.is_second(d[0])
}

/// The quick-check property of one character for a normal form.
pub fn qc(form: Stage, c: char) -> Verdict {
    let u = ucd();
    let changes = |st: Stage| run(st, &[c]) != [c];
    match form {
        Nfd | Nfkd => {
            if u.has_decomposition(c, form.compat()) {
                Verdict::No
            } else {
                Verdict::Yes
            }
        }
        _ => {
            if crate::ucd::is_hangul(c) || (c as u32) < 0x80 {
                Verdict::Yes
            } else if u.has_decomposition(c, form.compat()) && changes(form) {
                Verdict::No
            } else if interacts(u, c) {
                Verdict::Maybe
            } else {
                Verdict::Yes
            }
        }
    }
}

/// UAX #15, section 9: detecting normalization forms.
pub fn quick(form: Stage, s: &[char]) -> Verdict {
    let u = ucd();
    let mut last = 0;
    let mut r = Verdict::Yes;
    for &c in s {
        let k = u.class(c);
        if last > k && k != 0 {
            return Verdict::No;
        }
        match qc(form, c) {
            Verdict::No => return Verdict::No,
            Verdict::Maybe => r = Verdict::Maybe,
            Verdict::Yes => (),
        }
        last = k;
    }
    r
}

/// Longest run of non-starters in the full compatibility decomposition.
pub fn longest_run(s: &[char]) -> usize {
    let u = ucd();
    let (mut best, mut cur) = (0, 0);
    let mut d = vec![];
    for &c in s {
        d.clear();
        u.decompose(c, true, &mut d);
        for &x in &d {
            cur = if u.class(x) != 0 { cur + 1 } else { 0 };
            best = best.max(cur);
        }
    }
    best
}

pub fn is_stream_safe(s: &[char]) -> bool {
    longest_run(s) <= MAX_NS
}

/// May a text be cut in front of `c` for this form (UAX #15, section 9.1)?
pub fn is_boundary(form: Stage, c: char) -> bool {
    let f = if form.normalizes() { form } else { Nfkd };
    ucd().class(c) == 0 && qc(f, c) == Verdict::Yes
}
