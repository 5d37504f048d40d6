//! Calls into the library from inside the library's own call-outs (source, sink, callback), each checked at once.
use crate::model::{self, Stage};
use crate::world::{self, call, Fault, NESTED};
use std::sync::OnceLock;
use unicode_normalization::{char as uc, is_nfc, is_nfd, is_nfkc, is_nfkd, UnicodeNormalization};

struct Case {
    text: String,
    want: [String; 6],
    is: [bool; 4],
}
static CASES: OnceLock<Vec<Case>> = OnceLock::new();

fn cases() -> &'static [Case] {
    CASES.get_or_init(|| {
        let texts = [
            "", "plain", "e\u{301}", "\u{1EAD}x", "a\u{315}\u{300}\u{5AE}\u{300}b", "\u{1100}\u{1161}\u{11A8}", "\u{AC01}\u{11A8}",
            "\u{FDFA}", "\u{344}\u{344}\u{301}", "\u{F900}\u{2F800}", "q\u{307}\u{323}\u{31B}", "\u{9C7}\u{9BE}\u{300}",
            "\u{FB2C}\u{5B0}", "\u{300}\u{301}\u{316}", "A\u{30A}\u{212B}", "\u{D4DB}\u{11A7}\u{110D1}\u{110BA}",
        ];
        let mut v: Vec<String> = texts.iter().map(|s| s.to_string()).collect();
        v.push("\u{301}\u{316}".repeat(40));
        v.push(format!("x{}y", "\u{323}\u{308}\u{1D165}".repeat(12)));
        v.into_iter()
            .map(|text| {
                let c: Vec<char> = text.chars().collect();
                let w = |s: Stage| model::run(s, &c).into_iter().collect::<String>();
                let is = |s: Stage| model::run(s, &c) == c;
                Case {
                    want: [w(Stage::Nfd), w(Stage::Nfkd), w(Stage::Nfc), w(Stage::Nfkc), w(Stage::Cjk), w(Stage::Ss)],
                    is: [is(Stage::Nfd), is(Stage::Nfkd), is(Stage::Nfc), is(Stage::Nfkc)],
                    text,
                }
            })
            .collect()
    })
}

pub fn init() {
    cases();
}

fn fail(what: String) {
    let mut n = NESTED.lock().unwrap();
    if n.is_none() {
        *n = Some(("nested-call-wrong".into(), what));
    }
}

/// Runs nested call number `k` and records a violation if it goes wrong. Unwinds only for allocation failures.
pub fn run(k: u8) {
    let cs = cases();
    let i = k as usize % cs.len();
    let how = k as usize / cs.len() % 12;
    let c = &cs[i];
    world::ev("nested", i as u64, how as u64);
    let s = &c.text;
    let r = call(|| -> Option<String> {
        let got: String = match how {
            0 => s.nfd().collect(),
            1 => s.nfkd().collect(),
            2 => s.nfc().collect(),
            3 => s.nfkc().collect(),
            4 => s.cjk_compat_variants().collect(),
            5 => s.stream_safe().collect(),
            6 => format!("{}", s.nfc()),
            7 => format!("{}", s.nfkd()),
            8..=10 => {
                let got = [is_nfd(s), is_nfkd(s), is_nfc(s), is_nfkc(s)];
                return if got != c.is { Some(format!("nested checks of {:?}: {:?}, want {:?}", s, got, c.is)) } else { None };
            }
            _ => {
                for ch in s.chars() {
                    let mut v = vec![];
                    uc::decompose_compatible(ch, |d| v.push(d));
                    let mut w = vec![];
                    crate::ucd::ucd().decompose(ch, true, &mut w);
                    if v != w {
                        return Some(format!("nested decomposition of {:?}: {:?}, want {:?}", ch, v, w));
                    }
                }
                return None;
            }
        };
        let want = &c.want[if how < 6 { how } else if how == 6 { 2 } else { 1 }];
        if got != *want {
            Some(format!("nested normalization #{} of {:?}: {:?}, want {:?}", how, s, got, want))
        } else {
            None
        }
    });
    match r {
        Ok(None) => (),
        Ok(Some(m)) => fail(m),
        Err(Fault::Panic(m)) => fail(format!("nested call panicked: {}", m)),
        Err(Fault::Alloc) => crate::heap::hook(std::alloc::Layout::new::<u8>()),
        Err(_) => fail("nested call unwound".into()),
    }
}
