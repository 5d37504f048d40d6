//! Per-character queries, checks and whole-text transformations of the library, each compared with the model.
use crate::model::{self, Stage, Verdict};
use crate::session::{show_text, viol, Res, Viol};
use crate::ucd::ucd;
use crate::world::{call, count, ev, Fault, K};
use unicode_normalization::char as uc;
use unicode_normalization::*;

/// Lets other threads run at each delivery.
#[derive(Clone)]
pub struct Yielding<I>(pub I);
impl<I: Iterator<Item = char>> Iterator for Yielding<I> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        crate::sched::yield_point(true);
        self.0.next()
    }
}

pub fn lib_fault(what: &str, f: Fault) -> Viol {
    let (class, d) = match f {
        Fault::Panic(m) => ("library-panic", m),
        Fault::Runaway => ("runaway", "source asked without bound".into()),
        Fault::Alloc => ("needs-heap", "allocation failure surfaced".into()),
        _ => ("unexpected-unwind", String::new()),
    };
    Viol { class: class.into(), detail: format!("{}: {}", what, d) }
}

pub const QUERIES: usize = 8;
fn scalar(x: u32) -> char {
    char::from_u32(x & 0x1F_FFFF).unwrap_or('A')
}
pub fn pack(kind: usize, c: char) -> usize {
    kind << 21 | c as usize
}

/// Fixed room for what a callback receives: usable while the heap is exhausted.
pub struct Buf {
    n: usize,
    a: [char; 32],
}
impl Buf {
    pub fn new() -> Buf {
        Buf { n: 0, a: ['\0'; 32] }
    }
    pub fn push(&mut self, c: char) {
        if self.n < 32 {
            self.a[self.n] = c;
        }
        self.n += 1;
    }
    pub fn get(&self) -> &[char] {
        &self.a[..self.n.min(32)]
    }
}

/// The three decomposition functions.
pub fn lib_decompose(f: usize, c: char, cb: impl FnMut(char)) {
    match f {
        0 => uc::decompose_canonical(c, cb),
        1 => uc::decompose_compatible(c, cb),
        _ => uc::decompose_cjk_compat_variants(c, cb),
    }
}
pub fn want_decompose(f: usize, c: char) -> Vec<char> {
    let mut v = vec![];
    match f {
        0 => ucd().decompose(c, false, &mut v),
        1 => ucd().decompose(c, true, &mut v),
        _ => match ucd().cjk(c) {
            Some((a, b)) => v.extend([a, b]),
            None => v.push(c),
        },
    }
    v
}
pub const FNAMES: [&str; 3] = ["decompose_canonical", "decompose_compatible", "decompose_cjk_compat_variants"];

/// A query from inside a callback: what is wrong with its answer, if anything.
fn inner(k: usize, c: char, out: char) -> Option<String> {
    let u = ucd();
    count(K::Reenter);
    match k {
        1..=3 => {
            let mut got = Buf::new();
            lib_decompose(k - 1, c, |x| {
                got.push(x);
                crate::sched::yield_point(true)
            });
            let want = want_decompose(k - 1, c);
            if got.n != want.len() || got.get() != want {
                return Some(format!("{}(U+{:04X}) calls back with [{}], want [{}]", FNAMES[k - 1], c as u32, show_text(got.get()), show_text(&want)));
            }
        }
        4 => {
            let got = (uc::canonical_combining_class(c), uc::is_combining_mark(c), uc::is_public_assigned(c));
            let want = (u.class(c), u.is_mark(c), u.is_public_assigned(c));
            if got != want {
                return Some(format!("class, mark, assigned of U+{:04X}: {:?}, want {:?}", c as u32, got, want));
            }
        }
        5 => {
            let (got, want) = (uc::compose(c, out), u.compose(c, out));
            if got != want {
                return Some(format!("compose(U+{:04X}, U+{:04X}) = {:?}, want {:?}", c as u32, out as u32, got, want));
            }
        }
        6 => {
            let got = [c, out].into_iter().nfkc().nfd().eq(model::run(Stage::Nfd, &model::run(Stage::Nfkc, &[c, out])));
            if !got {
                return Some(format!("NFD of NFKC of [{}]", show_text(&[c, out])));
            }
        }
        _ => crate::nested::run(c as u32 as u8),
    }
    None
}

/// One per-character query: kind and character in `a`, second character in `b`; the bits of `b` above the character choose
/// a query that each callback makes in turn.
pub fn query(a: u32, b: u32) -> Res {
    let kind = (a >> 21) as usize % QUERIES;
    let (c, d) = (scalar(a), scalar(b));
    let u = ucd();
    count(K::Queries);
    let name = ["canonical_combining_class", "is_combining_mark", "is_public_assigned", "compose", FNAMES[0], FNAMES[1], FNAMES[2], "is_nfc_quick of one character"][kind];
    let what = || if kind == 3 { format!("{}(U+{:04X}, U+{:04X})", name, c as u32, d as u32) } else { format!("{}(U+{:04X})", name, c as u32) };
    macro_rules! same {
        ($got:expr, $want:expr) => {
            match call(|| $got) {
                Ok(g) => {
                    let w = $want;
                    if g != w {
                        return viol("query-wrong", format!("{} = {:?}, want {:?}", what(), g, w));
                    }
                }
                Err(f) => return Err(lib_fault(&what(), f)),
            }
        };
    }
    match kind {
        0 => same!(uc::canonical_combining_class(c), u.class(c)),
        1 => same!(uc::is_combining_mark(c), u.is_mark(c)),
        2 => same!(uc::is_public_assigned(c), u.is_public_assigned(c)),
        3 => same!(uc::compose(c, d), u.compose(c, d)),
        7 => {
            same!(verdict(is_nfc_quick([c].into_iter())), model::qc(Stage::Nfc, c))
        }
        f => {
            let f = f - 4;
            let want = want_decompose(f, c);
            let mut got = Buf::new();
            let nest = (b >> 21) as usize & 7;
            let mut bad = None;
            match call(|| {
                lib_decompose(f, c, |x| {
                    got.push(x);
                    crate::sched::yield_point(true);
                    if nest > 0 && bad.is_none() {
                        bad = inner(nest, d, x)
                    }
                })
            }) {
                Ok(()) => {
                    if let Some(b) = bad {
                        return viol("nested-call-wrong", format!("from the callback of {}: {}", what(), b));
                    }
                    if got.n != want.len() || got.get() != want {
                        return viol("query-wrong", format!("{} calls back with [{}], want [{}]", what(), show_text(got.get()), show_text(&want)));
                    }
                }
                Err(f) => return Err(lib_fault(&what(), f)),
            }
        }
    }
    ev("query", a as u64, b as u64);
    Ok(())
}

pub fn verdict(v: IsNormalized) -> Verdict {
    match v {
        IsNormalized::Yes => Verdict::Yes,
        IsNormalized::Maybe => Verdict::Maybe,
        IsNormalized::No => Verdict::No,
    }
}

pub const VERDICTS: usize = 12;
pub const VNAMES: [&str; 12] = [
    "is_nfd_quick", "is_nfkd_quick", "is_nfc_quick", "is_nfkc_quick", "is_nfd_stream_safe_quick", "is_nfc_stream_safe_quick",
    "is_nfd", "is_nfkd", "is_nfc", "is_nfkc", "is_nfd_stream_safe", "is_nfc_stream_safe",
];
const FORMS: [Stage; 6] = [Stage::Nfd, Stage::Nfkd, Stage::Nfc, Stage::Nfkc, Stage::Nfd, Stage::Nfc];

pub fn lib_quick<I: Iterator<Item = char>>(kind: usize, it: I) -> Verdict {
    verdict(match kind % 6 {
        0 => is_nfd_quick(it),
        1 => is_nfkd_quick(it),
        2 => is_nfc_quick(it),
        3 => is_nfkc_quick(it),
        4 => is_nfd_stream_safe_quick(it),
        _ => is_nfc_stream_safe_quick(it),
    })
}
pub fn lib_auth(kind: usize, s: &str) -> bool {
    match kind % 6 {
        0 => is_nfd(s),
        1 => is_nfkd(s),
        2 => is_nfc(s),
        3 => is_nfkc(s),
        4 => is_nfd_stream_safe(s),
        _ => is_nfc_stream_safe(s),
    }
}
/// Is the text in the form (and stream-safe, for kinds 4 and 5)?
pub fn in_form(kind: usize, t: &[char]) -> bool {
    model::run(FORMS[kind % 6], t) == t && (kind % 6 < 4 || model::is_stream_safe(t))
}

/// Is a quick answer acceptable for the text?
pub fn judge_quick(kind: usize, t: &[char], got: Verdict) -> Res {
    let kind = kind % 6;
    let name = VNAMES[kind];
    if kind < 4 {
        let want = model::quick(FORMS[kind], t);
        if got != want {
            return viol("verdict-wrong", format!("{} of [{}] = {:?}, want {:?}", name, show_text(t), got, want));
        }
    }
    let yes = || in_form(kind, t);
    if got == Verdict::Yes && !yes() || got == Verdict::No && yes() {
        return viol("verdict-unsound", format!("{} of [{}] = {:?}, which is wrong", name, show_text(t), got));
    }
    Ok(())
}

/// Check function `kind` of the whole text.
pub fn verdict_of_text(kind: u32, t: &[char]) -> Res {
    let kind = kind as usize % VERDICTS;
    count(K::Verdicts);
    let what = || format!("{} of [{}]", VNAMES[kind], show_text(t));
    if kind < 6 {
        match call(|| lib_quick(kind, Yielding(t.iter().copied()))) {
            Ok(g) => {
                ev("quick", kind as u64, g as u64);
                judge_quick(kind, t, g)
            }
            Err(f) => Err(lib_fault(&what(), f)),
        }
    } else {
        let s: String = t.iter().collect();
        match call(|| lib_auth(kind, &s)) {
            Ok(g) => {
                ev("check", kind as u64, g as u64);
                if g != in_form(kind, t) {
                    return viol("check-wrong", format!("{} = {}", what(), g));
                }
                Ok(())
            }
            Err(f) => Err(lib_fault(&what(), f)),
        }
    }
}

/// The library's output for a text, as a whole.
pub fn lib_run(st: Stage, t: &[char]) -> Result<Vec<char>, Viol> {
    let it = Yielding(t.iter().copied());
    // `collect` sizes nothing by the adapters' hints except through Vec; go through a plain loop.
    fn all<I: Iterator<Item = char>>(it: I, cap: usize) -> Vec<char> {
        let mut v = vec![];
        for c in it {
            if v.len() > cap {
                std::panic::resume_unwind(Box::new(crate::world::Runaway));
            }
            v.push(c);
        }
        v
    }
    let cap = t.len() * 20 + 1000;
    call(|| match st {
        Stage::Nfd => all(it.nfd(), cap),
        Stage::Nfkd => all(it.nfkd(), cap),
        Stage::Nfc => all(it.nfc(), cap),
        Stage::Nfkc => all(it.nfkc(), cap),
        Stage::Cjk => all(it.cjk_compat_variants(), cap),
        Stage::Ss => all(it.stream_safe(), cap),
    })
    .map_err(|f| lib_fault(&format!("{:?} of [{}]", st, show_text(t)), f))
}

/// Whole-text transformation `kind`: six by iteration over a string, four by display, one by both checks.
pub fn whole(kind: u32, t: &[char]) -> Res {
    let kind = kind as usize % 11;
    let s: String = t.iter().collect();
    let st = model::STAGES[if kind < 6 { kind } else { kind.min(10) - 6 }];
    let what = || format!("whole-text #{} {:?} of [{}]", kind, st, show_text(t));
    let r = call(|| match kind {
        0 => s.nfd().collect::<String>(),
        1 => s.nfkd().collect(),
        2 => s.nfc().collect(),
        3 => s.nfkc().collect(),
        4 => s.cjk_compat_variants().collect(),
        5 => s.stream_safe().collect(),
        6 => s.nfd().to_string(),
        7 => s.nfkd().to_string(),
        8 => s.nfc().to_string(),
        9 => s.nfkc().to_string(),
        _ => s.cjk_compat_variants().to_string(),
    });
    match r {
        Ok(g) => {
            count(K::Out);
            let want: String = model::run(st, t).into_iter().collect();
            ev("whole", kind as u64, g.len() as u64);
            if g != want {
                let g: Vec<char> = g.chars().collect();
                let w: Vec<char> = want.chars().collect();
                return viol("output-wrong", format!("{} = [{}], want [{}]", what(), show_text(&g), show_text(&w)));
            }
            Ok(())
        }
        Err(f) => Err(lib_fault(&what(), f)),
    }
}
