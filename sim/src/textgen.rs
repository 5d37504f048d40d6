//! Swarm text generator: every run enables its own mix of ingredients, alphabets and lengths.
use crate::rng::Rng;
use crate::ucd::{is_hangul, ucd};

const KINDS: usize = 15;

pub struct Style {
    w: [usize; KINDS],
    classes: Vec<u8>,
    marks: Vec<char>,
    focus: Vec<char>,
    seconds: bool,
    max_run: usize,
    segs: usize,
    pub index: u64,
}

/// A permutation of 0..0x110000, so that successive indices visit all code points in an unrelated order.
pub fn perm(i: u64) -> u32 {
    ((i % 0x110000).wrapping_mul(444_443) % 0x110000) as u32
}
fn scalar(x: u32) -> Option<char> {
    char::from_u32(x)
}

impl Style {
    pub fn new(r: &mut Rng, index: u64) -> Style {
        let u = ucd();
        let mut w = [0; KINDS];
        for x in w.iter_mut() {
            if r.chance(2, 5) {
                *x = [1, 2, 5, 12][r.below(4)]
            }
        }
        w[r.below(KINDS)] += 6;
        if r.chance(1, 2) {
            w[1] += 4
        }
        if r.chance(1, 2) {
            w[2] += 4
        }
        let classes: Vec<u8> = (1..=254u8).filter(|&c| !u.marks_by_class[c as usize].is_empty()).collect();
        let n = [1, 2, 3, 4, 6, 10, classes.len()][r.below(7)];
        let mut cl: Vec<u8> = (0..n).map(|_| *r.pick(&classes)).collect();
        if r.chance(1, 2) {
            cl.push(230)
        }
        if r.chance(1, 3) {
            cl.push(*r.pick(&[220, 202, 216, 240, 9, 7, 1]))
        }
        let marks = cl.iter().map(|&c| *r.pick(&u.marks_by_class[c as usize])).collect();
        let focus = (0..r.range(1, 5)).map(|_| *r.pick(&u.interesting)).collect();
        let max_run = match r.below(100) {
            0..=54 => r.range(0, 6),
            55..=79 => r.range(3, 20),
            80..=93 => 34,
            94..=97 => 70,
            98 => 140,
            _ => 1030,
        };
        let segs = match r.below(10) {
            0..=4 => r.range(1, 3),
            5..=7 => r.range(2, 8),
            8 => r.range(5, 20),
            _ => r.range(10, 40),
        };
        Style { w, classes: cl, marks, focus, seconds: r.chance(1, 3), max_run, segs, index }
    }

    pub fn text(&self, r: &mut Rng) -> Vec<char> {
        let mut v = vec![];
        for _ in 0..self.segs {
            self.segment(r, &mut v);
            if v.len() > 3000 {
                break;
            }
        }
        v
    }

    pub fn mark(&self, r: &mut Rng) -> char {
        let u = ucd();
        match r.below(10) {
            0..=4 => *r.pick(&self.marks),
            5..=7 => {
                let k = *r.pick(&self.classes) as usize;
                *r.pick(&u.marks_by_class[k])
            }
            8 if self.seconds => *r.pick(&u.seconds),
            _ => *r.pick(&u.marks),
        }
    }
    pub fn run(&self, r: &mut Rng, out: &mut Vec<char>) {
        let n = match r.below(12) {
            // lengths near buffer sizes and limits
            0..=2 => {
                let e = *r.pick(&[3usize, 4, 5, 7, 8, 9, 15, 16, 17, 19, 20, 21, 28, 29, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]);
                if e <= self.max_run {
                    e
                } else {
                    r.range(0, self.max_run)
                }
            }
            3..=5 => r.range(0, self.max_run),
            _ => r.range(0, self.max_run.min(6)),
        };
        match r.below(5) {
            0 => {
                // descending classes: worst case for ordering
                let mut m: Vec<char> = (0..n).map(|_| self.mark(r)).collect();
                m.sort_by_key(|&c| 255 - ucd().class(c));
                out.extend(m)
            }
            1 => {
                // already ordered
                let mut m: Vec<char> = (0..n).map(|_| self.mark(r)).collect();
                m.sort_by_key(|&c| ucd().class(c));
                out.extend(m)
            }
            2 => {
                let m = self.mark(r);
                out.extend((0..n).map(|_| m))
            }
            _ => out.extend((0..n).map(|_| self.mark(r))),
        }
    }
    pub fn starter(&self, r: &mut Rng) -> char {
        let u = ucd();
        match r.below(8) {
            0 | 1 => *r.pick(&['a', 'o', 'x', 'U', ' ', '=', '<', '7']),
            2 => match r.below(4) {
                0 => scalar(r.below(0x20) as u32).unwrap(),
                1 | 2 => scalar(r.below(0x80) as u32).unwrap(),
                _ => scalar(r.below(0x110000) as u32).unwrap_or('\n'),
            },
            3 => r.pick(&u.composites).0,
            4 => r.pick(&u.composites).2,
            5 => *r.pick(&self.focus),
            6 => *r.pick(&['\u{34F}', '\u{200D}', '\u{4E00}', '\u{3B1}', '\u{435}', '\u{915}', '\u{5D0}', '\u{1F600}']),
            _ => *r.pick(&u.interesting),
        }
    }
    fn hangul(&self, r: &mut Rng, out: &mut Vec<char>) {
        let at = |x: usize| scalar(x as u32).unwrap();
        let l = |r: &mut Rng| at(0x1100 + *r.pick(&[0, 1, 9, 17, 18, 19, 5]));
        let v = |r: &mut Rng| at(0x1161 + *r.pick(&[0, 1, 10, 19, 20, 21]));
        let t = |r: &mut Rng| at(0x11A7 + *r.pick(&[0, 1, 2, 13, 26, 27, 28]));
        for _ in 0..r.range(1, 4) {
            match r.below(9) {
                0 => out.push(l(r)),
                1 => out.extend([l(r), v(r)]),
                2 => out.extend([l(r), v(r), t(r)]),
                3 => out.push(at(0xAC00 + r.below(11172))),
                4 => out.extend([at(0xAC00 + 28 * r.below(399)), t(r)]),
                5 => out.extend([at(0xAC00 + r.below(11172)), t(r)]),
                6 => out.extend([l(r), self.mark(r), v(r)]),
                7 => out.extend([at(0xAC00 + 28 * r.below(399)), self.mark(r), t(r)]),
                _ => out.push(*r.pick(&[at(0xABFF), at(0xAC00), at(0xD7A3), at(0xD7A4), at(0x115F), at(0x1160), at(0x1176), at(0x11C3), at(0x1113), at(0xD7B0), at(0xD7CB)])),
            }
        }
    }
    /// Expands a composite, perhaps partly, perhaps with marks interposed or reordered.
    fn composite(&self, r: &mut Rng, out: &mut Vec<char>, which: usize) {
        let u = ucd();
        let (a, b, c) = u.composites[which % u.composites.len()];
        let at = out.len();
        match r.below(8) {
            0 => out.extend([a, b]),
            1 => out.push(c),
            2 => {
                out.push(a);
                self.run(r, out);
                out.push(b);
            }
            3 => {
                u.decompose(c, false, out);
            }
            4 => {
                // marks of the full expansion in another order
                let mut d = vec![];
                u.decompose(c, false, &mut d);
                for _ in 0..r.below(3) {
                    d.push(self.mark(r))
                }
                r.shuffle(&mut d[1..]);
                out.extend(d)
            }
            5 => {
                out.extend([a, self.mark(r), b, self.mark(r)]);
            }
            6 => {
                out.push(c);
                self.run(r, out);
                out.push(b);
            }
            _ => {
                out.extend([a, b]);
                // something that composes with the result
                let next: Vec<char> = u.composites.iter().filter(|p| p.0 == c).map(|p| p.1).collect();
                if !next.is_empty() {
                    if r.chance(1, 3) {
                        out.push(self.mark(r))
                    }
                    out.push(*r.pick(&next))
                }
            }
        }
        if r.chance(1, 10) {
            // a starter between the parts
            let k = r.range(at, out.len());
            out.insert(k, self.starter(r))
        }
    }
    pub fn segment(&self, r: &mut Rng, out: &mut Vec<char>) {
        let u = ucd();
        match r.weighted(&self.w) {
            0 => {
                for _ in 0..r.range(1, 8) {
                    out.push(scalar(r.below(0x80) as u32).unwrap())
                }
            }
            1 => {
                let k = r.below(u.composites.len());
                self.composite(r, out, k)
            }
            2 => {
                if r.chance(2, 3) {
                    out.push(self.starter(r))
                }
                self.run(r, out)
            }
            3 => self.hangul(r, out),
            4 => {
                for _ in 0..r.range(1, 3) {
                    out.push(*r.pick(&u.decomposing));
                    if r.chance(1, 3) {
                        self.run(r, out)
                    }
                }
            }
            5 => {
                if r.chance(1, 2) {
                    self.run(r, out)
                }
                for _ in 0..r.range(1, 3) {
                    let l = if r.chance(1, 2) && !u.mixed_ns.is_empty() { &u.mixed_ns } else { &u.trailing_ns };
                    out.push(*r.pick(l));
                }
                self.run(r, out)
            }
            6 => {
                out.push(*r.pick(&u.cjk_list));
                if r.chance(1, 4) {
                    out.push(*r.pick(&['\u{FE00}', '\u{FE01}', '\u{FE02}', '\u{E0100}']))
                }
            }
            7 => {
                out.push(*r.pick(&u.excluded));
                if r.chance(1, 2) {
                    self.run(r, out)
                }
            }
            8 => out.push(*r.pick(&u.edges)),
            9 => {
                let c = loop {
                    if let Some(c) = scalar(r.below(0x110000) as u32) {
                        break c;
                    }
                };
                out.push(c)
            }
            10 => {
                // code points that differ from interesting ones by a bit or a plane
                let c = *r.pick(&u.interesting) as u32;
                let x = match r.below(3) {
                    0 => c ^ 1 << r.below(21),
                    1 => (c & 0xFFFF) | (r.below(17) as u32) << 16,
                    _ => (c as i64 + *r.pick(&[-1i64, 1, -2, 2, 28, -28, 0x10000, 256, -256])) as u32,
                };
                out.extend(scalar(x))
            }
            11 => {
                // pairs that look like composing pairs
                let p = *r.pick(&u.composites);
                let q = *r.pick(&u.composites);
                match r.below(4) {
                    0 => out.extend([p.0, q.1]),
                    1 => out.extend([p.1, p.0]),
                    2 => {
                        out.push(p.0);
                        out.extend(scalar((p.1 as u32 & 0xFFFF) | 0x10000))
                    }
                    _ => {
                        out.extend(scalar((p.0 as u32 & 0xFFFF) | 0x10000));
                        out.push(p.1)
                    }
                }
            }
            12 => {
                let p = *r.pick(&u.starter_pairs);
                match r.below(4) {
                    0 => out.extend([p.0, p.1]),
                    1 => {
                        out.push(p.0);
                        self.run(r, out);
                        out.push(p.1)
                    }
                    2 => {
                        out.extend([p.0, p.0, p.1, p.1]);
                        self.run(r, out)
                    }
                    _ => out.extend([p.2, p.1, self.mark(r)]),
                }
            }
            13 => {
                let n = r.range(2, 6) as u64;
                let base = self.index.wrapping_mul(8).wrapping_add(r.below(8) as u64);
                for i in 0..n {
                    out.extend(scalar(perm(base + i)))
                }
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    out.push(*r.pick(&self.focus))
                }
                if r.chance(1, 2) {
                    self.run(r, out)
                }
            }
        }
    }
}

/// Text for run `index`: mostly swarm, sometimes a sweep that makes sure everything is met at some index.
pub fn text(r: &mut Rng, index: u64) -> Vec<char> {
    let u = ucd();
    let mut v = vec![];
    match index % 16 {
        // all code points, 256 at a time: needs 4352 such runs
        5 => {
            let k = index / 16 * 256;
            let dense = r.chance(1, 2);
            for i in 0..256 {
                v.extend(scalar(perm(k + i)));
                if dense {
                    for _ in 0..r.below(3) {
                        v.push(*r.pick(&u.marks))
                    }
                } else if r.chance(1, 40) {
                    v.push(*r.pick(&u.marks))
                }
            }
        }
        // everything interesting, in context: a few per run
        7 | 11 => {
            let st = Style::new(r, index);
            let n = 12;
            let k = (index / 16 * 2 + (index % 16 == 11) as u64) * n;
            for i in 0..n {
                v.push(u.interesting[((k + i) * 7919 % u.interesting.len() as u64) as usize]);
                if r.chance(1, 3) {
                    v.push(st.mark(r))
                }
                if r.chance(1, 6) {
                    v.push(st.starter(r))
                }
            }
        }
        // every composite, expanded in one way or another
        3 | 13 => {
            let st = Style::new(r, index);
            let k = (index / 16 * 2 + (index % 16 == 13) as u64) * 6;
            for i in 0..6 {
                st.composite(r, &mut v, (k + i) as usize * 31);
                if r.chance(1, 3) {
                    st.segment(r, &mut v)
                }
            }
        }
        // Hangul: every syllable, whole or in parts
        9 => {
            let k = index / 16 * 12;
            for i in 0..12u64 {
                let s = scalar(0xAC00 + ((k + i) * 5 % 11172) as u32).unwrap();
                match r.below(4) {
                    0 => v.push(s),
                    1 => u.decompose(s, false, &mut v),
                    2 => {
                        u.decompose(s, false, &mut v);
                        if (s as u32 - 0xAC00) % 28 != 0 {
                            let t = v.pop().unwrap();
                            v.truncate(v.len() - 2);
                            v.extend([scalar((s as u32 - 0xAC00) / 28 * 28 + 0xAC00).unwrap(), t])
                        }
                    }
                    _ => {
                        u.decompose(s, false, &mut v);
                        if r.chance(1, 2) {
                            v.push(*r.pick(&u.marks))
                        }
                    }
                }
            }
        }
        _ => v = Style::new(r, index).text(r),
    }
    let _ = is_hangul;
    if r.chance(1, 400) {
        // one very long run
        let st = Style::new(r, index);
        let n = *r.pick(&[300usize, 600, 1024, 2000, 4100]);
        let n = if r.chance(1, 40) { 66_000 } else { n };
        let at = r.range(0, v.len());
        let pool: Vec<char> = (0..r.range(1, 20)).map(|_| st.mark(r)).collect();
        let run: Vec<char> = (0..n).map(|_| *r.pick(&pool)).collect();
        v.splice(at..at, run);
    } else if r.chance(1, 12_000) && !v.is_empty() {
        // one very long text: positions and counts beyond 16 bits
        let mut w = Vec::with_capacity(70_000);
        let st = Style::new(r, index);
        while w.len() < 66_000 {
            w.extend_from_slice(&v);
            st.segment(r, &mut w);
        }
        v = w
    }
    v
}
