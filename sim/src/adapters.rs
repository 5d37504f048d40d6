//! The crate's real adapters behind one object interface, so that a scenario can stack and drive them freely.
use crate::heap;
use crate::model::Stage;
use crate::world::{FSrc, Src};
use std::fmt::{self, Write};
use std::iter::FusedIterator;
use std::mem::ManuallyDrop;
use std::str::Chars;
use unicode_normalization::{Decompositions, Recompositions, Replacements, StreamSafe, UnicodeNormalization};

/// How to consume: by reference (can be continued) or by value.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Nth,
    TryFold,
    TakeN,
    Find,
    Position,
    ByRefFold,
    All,
    Any,
    FindMap,
    StepTwo,
    TakeWhile,
}
pub const HOWS: [How; 11] =
    [How::Nth, How::TryFold, How::TakeN, How::Find, How::Position, How::ByRefFold, How::All, How::Any, How::FindMap, How::StepTwo, How::TakeWhile];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fin {
    Fold,
    CollectString,
    CollectVec,
    Count,
    Last,
    ForEach,
    Extend,
    SkipCollect,
    StepBy,
    Peekable,
    Chain,
    Max,
    Eq,
    Cmp,
    Partition,
    RevVec,
    Reduce,
    Min,
    MinBy,
    Zip,
    Lt,
    Product,
    TryForEach,
    IsSorted,
    FlatMap,
    Fuse,
}
pub const FINS: [Fin; 26] = [
    Fin::Fold, Fin::CollectString, Fin::CollectVec, Fin::Count, Fin::Last, Fin::ForEach, Fin::Extend, Fin::SkipCollect,
    Fin::StepBy, Fin::Peekable, Fin::Chain, Fin::Max, Fin::Eq, Fin::Cmp, Fin::Partition, Fin::RevVec,
    Fin::Reduce, Fin::Min, Fin::MinBy, Fin::Zip, Fin::Lt, Fin::Product, Fin::TryForEach, Fin::IsSorted, Fin::FlatMap, Fin::Fuse,
];
fn weigh(a: u64, c: char) -> u64 {
    (a ^ c as u64).wrapping_mul(0x100_0000_01B3)
}
fn digits(x: u64) -> Vec<char> {
    (0..4).map(|i| char::from_u32(0x10000 + (x >> (16 * i) & 0xFFFF) as u32).unwrap()).collect()
}

pub trait Handle {
    fn next(&mut self) -> Option<char>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// Items seen (a final None if the end was met) when consuming up to `n` by reference.
    fn partial(&mut self, how: How, n: usize) -> Vec<Option<char>>;
    /// Has a closure take up to `n` answers, each put into `out` (which has room for them); it then stops or, with `fail`, unwinds.
    fn through(&mut self, how: usize, n: usize, fail: bool, out: &mut Vec<Option<char>>);
    /// Consumes by value; the answer in a form comparable with `fin_expected`.
    fn finish(self: Box<Self>, fin: Fin, n: usize, want: &[char]) -> Vec<char>;
    fn try_clone(&self) -> Option<Box<dyn Handle>>;
    /// `clone_from`, if the other handle is of the same kind.
    fn try_assign(&mut self, other: &dyn Handle) -> bool;
    fn as_any(&self) -> &dyn std::any::Any;
    fn display(&self, w: &mut dyn Write, flags: u8) -> Option<fmt::Result>;
}

/// What `finish` must answer if `rest` is left.
pub fn fin_expected(fin: Fin, n: usize, rest: &[char]) -> Vec<char> {
    let num = |n: usize| vec![char::from_u32(0x10000 + (n as u32 & 0xFFFF)).unwrap(), char::from_u32(0x10000 + (n as u32 >> 16)).unwrap()];
    match fin {
        Fin::Count => num(rest.len()),
        Fin::Last => rest.last().copied().into_iter().collect(),
        Fin::SkipCollect => rest.iter().copied().skip(n).collect(),
        Fin::StepBy => rest.iter().copied().step_by(n + 1).collect(),
        Fin::Chain => rest.iter().copied().chain(['!']).collect(),
        Fin::Max => rest.iter().copied().max().into_iter().collect(),
        Fin::Eq | Fin::Cmp => vec!['='],
        Fin::Partition => {
            let (mut a, b): (Vec<char>, Vec<char>) = rest.iter().copied().partition(|c| (*c as u32) & 1 == 0);
            a.push('|');
            a.extend(b);
            a
        }
        Fin::RevVec => rest.iter().rev().copied().collect(),
        Fin::Reduce => rest.iter().copied().reduce(|a, b| char::from_u32((weigh(a as u64, b) & 0x7FFF) as u32).unwrap()).into_iter().collect(),
        Fin::Min => rest.iter().copied().min().into_iter().collect(),
        Fin::MinBy => rest.iter().copied().min_by_key(|c| (*c as u32).reverse_bits()).into_iter().collect(),
        Fin::Product => digits(rest.iter().fold(7, |a, c| weigh(a, *c))),
        Fin::IsSorted => vec![if rest.is_sorted() { '=' } else { '#' }],
        Fin::Lt => vec![if rest.is_empty() { '#' } else { '<' }],
        _ => rest.to_vec(),
    }
}

fn finish<I: Iterator<Item = char>>(mut it: I, fin: Fin, n: usize, want: &[char]) -> Vec<char> {
    let num = |n: usize| vec![char::from_u32(0x10000 + (n as u32 & 0xFFFF)).unwrap(), char::from_u32(0x10000 + (n as u32 >> 16)).unwrap()];
    match fin {
        Fin::Fold => it.fold(vec![], |mut v, c| {
            v.push(c);
            v
        }),
        Fin::CollectString => it.collect::<String>().chars().collect(),
        Fin::CollectVec => it.collect(),
        Fin::Count => num(it.count()),
        Fin::Last => it.last().into_iter().collect(),
        Fin::ForEach => {
            let mut v = vec![];
            it.for_each(|c| v.push(c));
            v
        }
        Fin::Extend => {
            let mut v = String::new();
            v.extend(it);
            v.chars().collect()
        }
        Fin::SkipCollect => it.skip(n).collect(),
        Fin::StepBy => it.step_by(n + 1).collect(),
        Fin::Peekable => {
            let mut p = it.peekable();
            let mut v = vec![];
            while let Some(&c) = p.peek() {
                if p.next() != Some(c) {
                    v.push('?');
                }
                v.push(c);
            }
            v
        }
        Fin::Chain => it.chain(['!']).collect(),
        Fin::Max => it.max().into_iter().collect(),
        Fin::Eq => vec![if it.eq(want.iter().copied()) { '=' } else { '#' }],
        Fin::Cmp => vec![if it.cmp(want.iter().copied()) == std::cmp::Ordering::Equal { '=' } else { '#' }],
        Fin::Partition => {
            let (mut a, b): (Vec<char>, Vec<char>) = it.partition(|c| (*c as u32) & 1 == 0);
            a.push('|');
            a.extend(b);
            a
        }
        Fin::RevVec => {
            let mut v: Vec<char> = it.by_ref().collect();
            v.reverse();
            v
        }
        Fin::Reduce => it.reduce(|a, b| char::from_u32((weigh(a as u64, b) & 0x7FFF) as u32).unwrap()).into_iter().collect(),
        Fin::Min => it.min().into_iter().collect(),
        Fin::MinBy => it.min_by_key(|c| (*c as u32).reverse_bits()).into_iter().collect(),
        Fin::Zip => it.zip(0usize..).enumerate().map(|(i, (c, k))| if i == k { c } else { '?' }).collect(),
        // nothing is less than something, and a proper prefix is less than the whole
        Fin::Lt => vec![if std::iter::empty::<char>().lt(it) { '<' } else { '#' }],
        Fin::Product => digits(it.map(|c| c as u32).fold(7, |a, c| weigh(a, char::from_u32(c).unwrap()))),
        Fin::TryForEach => {
            let mut v = vec![];
            let _: Result<(), ()> = it.try_for_each(|c| {
                v.push(c);
                Ok(())
            });
            v
        }
        Fin::IsSorted => vec![if it.is_sorted() { '=' } else { '#' }],
        Fin::FlatMap => it.flat_map(|c| Some(c)).collect(),
        Fin::Fuse => it.fuse().inspect(|_| ()).collect(),
    }
}

pub const THROUGH: usize = 7;
fn through<I: Iterator<Item = char>>(it: &mut I, how: usize, n: usize, fail: bool, out: &mut Vec<Option<char>>) {
    let start = out.len();
    let mut enough = |c: char| {
        out.push(Some(c));
        if out.len() - start < n {
            return false;
        }
        if fail {
            crate::world::callback_fault()
        }
        true
    };
    let ended = match how % THROUGH {
        0 => it.try_fold((), |_, c| if enough(c) { Err(()) } else { Ok(()) }).is_ok(),
        1 => it.all(|c| !enough(c)),
        2 => !it.any(enough),
        3 => it.find(|c| enough(*c)).is_none(),
        4 => it.position(enough).is_none(),
        5 => it.find_map(|c| if enough(c) { Some(()) } else { None }).is_none(),
        // Only a failing closure stops this one.
        _ if fail => {
            it.by_ref().for_each(|c| drop(enough(c)));
            true
        }
        _ => it.try_for_each(|c| if enough(c) { Err(()) } else { Ok(()) }).is_ok(),
    };
    if ended {
        out.push(None)
    }
}

fn partial<I: Iterator<Item = char>>(it: &mut I, how: How, n: usize) -> Vec<Option<char>> {
    match how {
        How::Nth => vec![it.nth(n)],
        How::TryFold => {
            let mut v = vec![];
            if n == 0 {
                return v;
            }
            let r = it.try_fold(0, |k, c| {
                v.push(Some(c));
                if k + 1 == n {
                    Err(())
                } else {
                    Ok(k + 1)
                }
            });
            if r.is_ok() {
                v.push(None)
            }
            v
        }
        How::TakeN => {
            let mut v: Vec<Option<char>> = it.by_ref().take(n).map(Some).collect();
            if v.len() < n {
                v.push(None)
            }
            v
        }
        How::Find => {
            if n == 0 {
                return vec![];
            }
            let mut k = 0;
            let mut v = vec![];
            let r = it.find(|c| {
                v.push(Some(*c));
                k += 1;
                k == n
            });
            if r.is_none() {
                v.push(None)
            } else if v.last() != Some(&r) {
                v.push(Some('?'))
            }
            v
        }
        How::Position => {
            if n == 0 {
                return vec![];
            }
            let mut v = vec![];
            let mut k = 0;
            let r = it.position(|c| {
                v.push(Some(c));
                k += 1;
                k == n
            });
            if r.is_none() {
                v.push(None)
            } else if r != Some(v.len() - 1) {
                v.push(Some('?'))
            }
            v
        }
        How::All | How::Any | How::FindMap => {
            if n == 0 {
                return vec![];
            }
            let mut v = vec![];
            let mut stop = |c: char| {
                v.push(Some(c));
                v.len() == n
            };
            let stopped = match how {
                How::All => !it.all(|c| !stop(c)),
                How::Any => it.any(stop),
                _ => it.find_map(|c| if stop(c) { Some(()) } else { None }).is_some(),
            };
            if !stopped {
                v.push(None)
            } else if v.len() != n {
                v.push(Some('?'))
            }
            v
        }
        // one, skipping one: `nth` from inside an adapter of the standard library
        How::StepTwo => {
            let a = it.next();
            match a {
                None => vec![None],
                Some(_) => {
                    let mut v = vec![a];
                    v.extend(it.by_ref().skip(0).step_by(1).take(n).map(Some));
                    if v.len() < n + 1 {
                        v.push(None)
                    }
                    v
                }
            }
        }
        How::TakeWhile => {
            let mut v = vec![];
            let mut k = 0;
            let all: Vec<char> = it
                .by_ref()
                .take_while(|c| {
                    v.push(Some(*c));
                    k += 1;
                    k <= n
                })
                .collect();
            if all.len() == v.len() {
                v.push(None)
            }
            v
        }
        How::ByRefFold => {
            let mut v = it.by_ref().fold(vec![], |mut v, c| {
                v.push(Some(c));
                v
            });
            v.push(None);
            v
        }
    }
}

struct CloneShow<T>(T); // adapters that can be cloned and displayed
struct Plain<T>(T); // stream-safe adapters

macro_rules! common {
    () => {
        fn next(&mut self) -> Option<char> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn partial(&mut self, how: How, n: usize) -> Vec<Option<char>> {
            partial(&mut self.0, how, n)
        }
        fn through(&mut self, how: usize, n: usize, fail: bool, out: &mut Vec<Option<char>>) {
            through(&mut self.0, how, n, fail, out)
        }
        fn finish(self: Box<Self>, fin: Fin, n: usize, want: &[char]) -> Vec<char> {
            finish(self.0, fin, n, want)
        }
        fn as_any(&self) -> &dyn std::any::Any {
            self
        }
    };
}
impl<T: Iterator<Item = char> + Clone + fmt::Display + 'static> Handle for CloneShow<T> {
    common!();
    fn try_clone(&self) -> Option<Box<dyn Handle>> {
        Some(show(self.0.clone()))
    }
    fn try_assign(&mut self, other: &dyn Handle) -> bool {
        match other.as_any().downcast_ref::<CloneShow<T>>() {
            Some(o) => {
                self.0.clone_from(&o.0);
                true
            }
            None => false,
        }
    }
    fn display(&self, w: &mut dyn Write, flags: u8) -> Option<fmt::Result> {
        // Width, precision and the like do not make it more or less than the remaining output.
        Some(match flags % 8 {
            1 => write!(w, "{:5}", self.0),
            2 => write!(w, "{:.2}", self.0),
            3 => write!(w, "{:*>9.1}", self.0),
            4 => write!(w, "{:#}", self.0),
            5 => write!(w, "{:-}", self.0),
            6 => write!(w, "{:+08.3}", self.0),
            _ => write!(w, "{}", self.0),
        })
    }
}
impl<T: Iterator<Item = char> + 'static> Handle for Plain<T> {
    common!();
    fn try_clone(&self) -> Option<Box<dyn Handle>> {
        None
    }
    fn try_assign(&mut self, _: &dyn Handle) -> bool {
        false
    }
    fn display(&self, _: &mut dyn Write, _: u8) -> Option<fmt::Result> {
        None
    }
}

/// Somebody else's adapter, lent out by reference: it can be displayed, cloned and asked for its size, by several threads.
pub struct Lent(*const dyn Handle);
impl Lent {
    /// The owner neither moves, changes nor drops its adapter while the result exists.
    pub fn new(h: &Box<dyn Handle>) -> Box<dyn Handle> {
        let _g = heap::enter(false);
        Box::new(Lent(&**h as *const dyn Handle))
    }
    fn get(&self) -> &dyn Handle {
        unsafe { &*self.0 }
    }
}
impl Handle for Lent {
    fn next(&mut self) -> Option<char> {
        unreachable!("harness: a lent stream is not changed")
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.get().size_hint()
    }
    fn partial(&mut self, _: How, _: usize) -> Vec<Option<char>> {
        unreachable!("harness: a lent stream is not changed")
    }
    fn through(&mut self, _: usize, _: usize, _: bool, _: &mut Vec<Option<char>>) {
        unreachable!("harness: a lent stream is not changed")
    }
    fn finish(self: Box<Self>, _: Fin, _: usize, _: &[char]) -> Vec<char> {
        unreachable!("harness: a lent stream is not changed")
    }
    fn try_clone(&self) -> Option<Box<dyn Handle>> {
        self.get().try_clone()
    }
    fn try_assign(&mut self, _: &dyn Handle) -> bool {
        false
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self.get().as_any()
    }
    fn display(&self, w: &mut dyn Write, flags: u8) -> Option<fmt::Result> {
        self.get().display(w, flags)
    }
}

/// An adapter as the source of the next one.
pub struct BoxSrc(ManuallyDrop<Box<dyn Handle>>);
impl BoxSrc {
    fn new(h: Box<dyn Handle>) -> BoxSrc {
        BoxSrc(ManuallyDrop::new(h))
    }
}
impl Drop for BoxSrc {
    fn drop(&mut self) {
        // The box is the simulator's, its contents partly the library's; blocks carry tags, so either side works.
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl Iterator for BoxSrc {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl Clone for BoxSrc {
    fn clone(&self) -> BoxSrc {
        BoxSrc::new(self.0.try_clone().expect("harness: clone of an uncloneable stack"))
    }
}
#[derive(Clone)]
pub struct FBoxSrc(BoxSrc);
impl Iterator for FBoxSrc {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl FusedIterator for FBoxSrc {}

// The adapter is made on the library's side of the heap, its box on the simulator's.
fn show<T: Iterator<Item = char> + Clone + fmt::Display + 'static>(t: T) -> Box<dyn Handle> {
    let _g = heap::enter(false);
    Box::new(CloneShow(t))
}
fn plain<T: Iterator<Item = char> + 'static>(t: T) -> Box<dyn Handle> {
    let _g = heap::enter(false);
    Box::new(Plain(t))
}

fn by_trait<I: Iterator<Item = char> + Clone + 'static>(st: Stage, i: I) -> Box<dyn Handle> {
    match st {
        Stage::Nfd => show(i.nfd()),
        Stage::Nfkd => show(i.nfkd()),
        Stage::Nfc => show(i.nfc()),
        Stage::Nfkc => show(i.nfkc()),
        Stage::Cjk => show(i.cjk_compat_variants()),
        Stage::Ss => plain(i.stream_safe()),
    }
}
fn by_constructor<I: Iterator<Item = char> + Clone + 'static>(st: Stage, i: I) -> Box<dyn Handle> {
    match st {
        Stage::Nfd => show(Decompositions::new_canonical(i)),
        Stage::Nfkd => show(Decompositions::new_compatible(i)),
        Stage::Nfc => show(Recompositions::new_canonical(i)),
        Stage::Nfkc => show(Recompositions::new_compatible(i)),
        Stage::Cjk => show(Replacements::new_cjk_compat_variants(i)),
        Stage::Ss => plain(StreamSafe::new(i)),
    }
}
fn by_str(st: Stage, s: &'static str) -> Box<dyn Handle> {
    match st {
        Stage::Nfd => show(s.nfd()),
        Stage::Nfkd => show(s.nfkd()),
        Stage::Nfc => show(s.nfc()),
        Stage::Nfkc => show(s.nfkc()),
        Stage::Cjk => show(s.cjk_compat_variants()),
        Stage::Ss => plain(s.stream_safe()),
    }
}
fn by_char(st: Stage, c: char) -> Box<dyn Handle> {
    match st {
        Stage::Nfd => show(UnicodeNormalization::nfd(c)),
        Stage::Nfkd => show(UnicodeNormalization::nfkd(c)),
        Stage::Nfc => show(UnicodeNormalization::nfc(c)),
        Stage::Nfkc => show(UnicodeNormalization::nfkc(c)),
        Stage::Cjk => show(UnicodeNormalization::cjk_compat_variants(c)),
        Stage::Ss => plain(UnicodeNormalization::stream_safe(c)),
    }
}

pub enum Input {
    Sim(Src),
    /// The string must outlive the handle (the session owns both and drops the handle first).
    Str(&'static str),
    Char(char),
}

/// Builds a stack of adapters (first stage innermost).
pub fn build(stages: &[Stage], input: Input, fused: bool, constructor: bool) -> Box<dyn Handle> {
    let mut h = match input {
        Input::Str(s) => by_str(stages[0], s),
        Input::Char(c) => by_char(stages[0], c),
        Input::Sim(s) => match (fused, constructor) {
            (false, false) => by_trait(stages[0], s),
            (false, true) => by_constructor(stages[0], s),
            (true, false) => by_trait(stages[0], FSrc(s)),
            (true, true) => by_constructor(stages[0], FSrc(s)),
        },
    };
    for &st in &stages[1..] {
        let b = BoxSrc::new(h);
        h = if fused { by_trait(st, FBoxSrc(b)) } else { by_trait(st, b) };
    }
    h
}

// ---- which auto and marker traits hold (decided at run time, so that losing one is a finding, not a build failure) ----

pub struct P<T>(std::marker::PhantomData<T>);
macro_rules! probe {
    ($yes:ident $no:ident $m:ident $($b:tt)*) => {
        trait $no { fn $m(&self) -> bool { false } }
        impl<T> $no for &P<T> {}
        trait $yes { fn $m(&self) -> bool { true } }
        impl<T: $($b)*> $yes for P<T> {}
    };
}
probe!(SendYes SendNo is_send Send);
probe!(SyncYes SyncNo is_sync Sync);
probe!(FusedYes FusedNo is_fused FusedIterator);

/// Adapters over thread-safe, fused sources that are not Send, not Sync or not fused.
pub fn missing_traits() -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! t {
        ($ty:ty, $name:literal) => {
            let p = P::<$ty>(std::marker::PhantomData);
            if !(&p).is_send() {
                v.push(concat!($name, " is not Send"))
            }
            if !(&p).is_sync() {
                v.push(concat!($name, " is not Sync"))
            }
            if !(&p).is_fused() {
                v.push(concat!($name, " is not a FusedIterator"))
            }
        };
    }
    t!(Decompositions<Chars<'static>>, "the NFD/NFKD adapter");
    t!(Recompositions<Chars<'static>>, "the NFC/NFKC adapter");
    t!(Replacements<Chars<'static>>, "the CJK variants adapter");
    t!(StreamSafe<Chars<'static>>, "the stream-safe adapter");
    v
}
