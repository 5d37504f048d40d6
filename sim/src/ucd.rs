//! The oracle's own copy of the Unicode 16.0.0 data (sim/data/ucd16.txt); nothing here comes from /repo.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x517C_C1B7_2722_0A95)
    }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

const N: usize = 0x110000;

pub struct Ucd {
    pub ccc: Vec<u8>,
    canon: Vec<u16>,
    compat: Vec<u16>,
    seqs: Vec<Box<[char]>>,
    pairs: Map<u64, char>,
    flags: Vec<u8>,
    cjk: Map<u32, (char, char)>,
    // Lists for the text generator, in code point order.
    pub marks: Vec<char>,
    pub marks_by_class: Vec<Vec<char>>,
    pub decomposing: Vec<char>,
    pub compat_only: Vec<char>,
    pub composites: Vec<(char, char, char)>,
    pub starter_pairs: Vec<(char, char, char)>,
    pub excluded: Vec<char>,
    pub seconds: Vec<char>,
    pub mixed_ns: Vec<char>,
    pub trailing_ns: Vec<char>,
    pub cjk_list: Vec<char>,
    pub edges: Vec<char>,
    pub interesting: Vec<char>,
    pub firsts_with: Map<u32, Vec<char>>,
}

const MARK: u8 = 1;
const ASSIGNED: u8 = 2;
const SECOND: u8 = 4;
const FIRST: u8 = 8;

fn ch(s: &str) -> char {
    char::from_u32(u32::from_str_radix(s, 16).unwrap()).unwrap()
}

pub fn is_hangul(c: char) -> bool {
    (0xAC00..0xAC00 + 11172).contains(&(c as u32))
}

impl Ucd {
    fn load() -> Ucd {
        let mut u = Ucd {
            ccc: vec![0; N],
            canon: vec![0; N],
            compat: vec![0; N],
            seqs: vec![Box::new([])],
            pairs: Map::default(),
            flags: vec![0; N],
            cjk: Map::default(),
            marks: vec![],
            marks_by_class: vec![vec![]; 256],
            decomposing: vec![],
            compat_only: vec![],
            composites: vec![],
            starter_pairs: vec![],
            excluded: vec![],
            seconds: vec![],
            mixed_ns: vec![],
            trailing_ns: vec![],
            cjk_list: vec![],
            edges: vec![],
            interesting: vec![],
            firsts_with: Map::default(),
        };
        let mut edges: Vec<u32> = vec![
            0, 1, 0x1f, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xff, 0x100, 0x2ff, 0x300, 0x34e, 0x34f, 0x350,
            0x36f, 0x7ff, 0x800, 0xfff, 0x1000, 0x10ff, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11a7,
            0x11a8, 0x11c2, 0x11c3, 0xabff, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd787, 0xd788, 0xd7a3, 0xd7a4, 0xd7b0,
            0xd7ff, 0xe000, 0xfdd0, 0xfdfa, 0xfdfb, 0xfe00, 0xfe01, 0xfe02, 0xfe20, 0xfeff, 0xff9e, 0xff9f, 0xfffd,
            0xfffe, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x2f7ff, 0x2f800, 0x2fa1d, 0x2fa1e, 0xe0001, 0xe0100, 0xeffff,
            0xf0000, 0xfffff, 0x100000, 0x10fffd, 0x10ffff,
        ];
        for l in include_str!("../data/ucd16.txt").lines() {
            let t: Vec<&str> = l.split(' ').collect();
            match t[0] {
                "D" | "K" => {
                    let s: Box<[char]> = t[2..].iter().map(|x| ch(x)).collect();
                    let i = u.seqs.len() as u16;
                    u.seqs.push(s);
                    let c = ch(t[1]) as usize;
                    if t[0] == "D" {
                        u.canon[c] = i
                    } else {
                        u.compat[c] = i
                    }
                }
                "P" => {
                    let (a, b, c) = (ch(t[1]), ch(t[2]), ch(t[3]));
                    u.pairs.insert((a as u64) << 32 | b as u64, c);
                    u.composites.push((a, b, c));
                    u.flags[b as usize] |= SECOND;
                    u.flags[a as usize] |= FIRST;
                    u.firsts_with.entry(b as u32).or_default().push(a);
                }
                "C" => {
                    for x in ch(t[1]) as usize..=ch(t[2]) as usize {
                        u.ccc[x] = t[3].parse().unwrap()
                    }
                }
                "M" | "A" => {
                    let (a, b) = (ch(t[1]) as u32, ch(t[2]) as u32);
                    edges.extend([a.wrapping_sub(1), a, b, b + 1]);
                    for x in a..=b {
                        u.flags[x as usize] |= if t[0] == "M" { MARK } else { ASSIGNED }
                    }
                }
                "J" => {
                    u.cjk.insert(ch(t[1]) as u32, (ch(t[2]), ch(t[3])));
                    u.cjk_list.push(ch(t[1]));
                }
                x => panic!("ucd16.txt: {}", x),
            }
        }
        for x in (0x1161..=0x1175).chain(0x11A8..=0x11C2) {
            u.flags[x] |= SECOND
        }
        edges.sort();
        edges.dedup();
        u.edges = edges.into_iter().filter_map(char::from_u32).collect();
        for x in 0..N as u32 {
            let c = match char::from_u32(x) {
                Some(c) => c,
                None => continue,
            };
            let i = x as usize;
            let mut int = false;
            if u.ccc[i] != 0 {
                u.marks.push(c);
                u.marks_by_class[u.ccc[i] as usize].push(c);
                int = true;
            }
            if u.canon[i] != 0 || u.compat[i] != 0 {
                u.decomposing.push(c);
                if u.canon[i] == 0 {
                    u.compat_only.push(c)
                }
                int = true;
                let mut d = vec![];
                u.decompose(c, true, &mut d);
                let lead = d.iter().take_while(|&&c| u.class(c) != 0).count();
                let trail = d.iter().rev().take_while(|&&c| u.class(c) != 0).count();
                if lead > 0 {
                    u.mixed_ns.push(c)
                } else if trail > 0 {
                    u.trailing_ns.push(c)
                }
            }
            if u.flags[i] & (SECOND | FIRST | MARK) != 0 || u.cjk.contains_key(&x) {
                int = true
            }
            if u.flags[i] & SECOND != 0 {
                u.seconds.push(c)
            }
            if u.canon[i] != 0 && !u.composites.is_empty() {
                // canonical decomposition, but not a primary composite: excluded from composition
                let mut d = vec![];
                u.decompose(c, false, &mut d);
                if crate::model::nfc_of_decomposed(&u, &d) != [c] {
                    u.excluded.push(c)
                }
            }
            if int {
                u.interesting.push(c)
            }
        }
        u.starter_pairs = u.composites.iter().cloned().filter(|p| u.class(p.1) == 0).collect();
        u
    }

    #[inline]
    pub fn class(&self, c: char) -> u8 {
        self.ccc[c as usize]
    }
    pub fn is_mark(&self, c: char) -> bool {
        self.flags[c as usize] & MARK != 0
    }
    pub fn is_public_assigned(&self, c: char) -> bool {
        self.flags[c as usize] & ASSIGNED != 0
    }
    /// Can the character be the second of a primary composite (NFC_QC = NFKC_QC = Maybe)?
    pub fn is_second(&self, c: char) -> bool {
        self.flags[c as usize] & SECOND != 0
    }
    pub fn cjk(&self, c: char) -> Option<(char, char)> {
        self.cjk.get(&(c as u32)).copied()
    }
    /// Appends the full decomposition of `c`.
    pub fn decompose(&self, c: char, compat: bool, out: &mut Vec<char>) {
        if is_hangul(c) {
            let s = c as u32 - 0xAC00;
            let at = |x: u32| char::from_u32(x).unwrap();
            out.push(at(0x1100 + s / 588));
            out.push(at(0x1161 + s % 588 / 28));
            if s % 28 != 0 {
                out.push(at(0x11A7 + s % 28));
            }
            return;
        }
        let mut i = 0;
        if compat {
            i = self.compat[c as usize];
        }
        if i == 0 {
            i = self.canon[c as usize];
        }
        if i == 0 {
            out.push(c)
        } else {
            out.extend_from_slice(&self.seqs[i as usize])
        }
    }
    pub fn has_decomposition(&self, c: char, compat: bool) -> bool {
        is_hangul(c) || self.canon[c as usize] != 0 || compat && self.compat[c as usize] != 0
    }
    pub fn compose(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..=0x1112).contains(&x) && (0x1161..=0x1175).contains(&y) {
            return char::from_u32(0xAC00 + (x - 0x1100) * 588 + (y - 0x1161) * 28);
        }
        if is_hangul(a) && (x - 0xAC00) % 28 == 0 && (0x11A8..=0x11C2).contains(&y) {
            return char::from_u32(x + y - 0x11A7);
        }
        self.pairs.get(&((a as u64) << 32 | b as u64)).copied()
    }
}

static UCD: OnceLock<Ucd> = OnceLock::new();
pub fn ucd() -> &'static Ucd {
    UCD.get_or_init(Ucd::load)
}
