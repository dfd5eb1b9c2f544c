//! The typed queries of the harness: one entry per compile-time tuple.
use crate::case::mix;
use crate::types::*;
use arche_tape::{EcsId, EcsIds, World};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum P {
    R(usize),
    W(usize),
    I,
}

impl P {
    pub fn ty(self) -> Option<usize> {
        match self {
            P::R(t) | P::W(t) => Some(t),
            P::I => None,
        }
    }
}

/// One item of a row: an id, or a component (value and identity) as it was found.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Cell {
    pub v: u64,
    pub tok: u64,
    pub addr: usize,
}

pub type Row = Vec<Cell>;

pub fn salted(v: u64, salt: u64) -> u64 {
    mix(v ^ salt.wrapping_mul(0x2545F4914F6CDD1D))
}

pub trait AsCell {
    fn cell(self, salt: Option<u64>) -> Cell;
}
impl AsCell for EcsId {
    fn cell(self, _: Option<u64>) -> Cell {
        Cell { v: self.as_u64(), tok: 0, addr: 0 }
    }
}
impl<T: Tc> AsCell for &T {
    fn cell(self, _: Option<u64>) -> Cell {
        let o = Tc::obs(self);
        Cell { v: o.v, tok: o.tok, addr: self as *const T as usize }
    }
}
impl<T: Tc> AsCell for &mut T {
    fn cell(self, salt: Option<u64>) -> Cell {
        let o = Tc::obs(self);
        let addr = self as *const T as usize;
        if let Some(s) = salt {
            if addr % std::mem::align_of::<T>() == 0 {
                self.set(salted(o.v, s));
            }
        }
        Cell { v: o.v, tok: o.tok, addr }
    }
}

pub struct Partial {
    pub first: Vec<Row>,
    pub all: Vec<Row>,
    /// rows given by `next` after the end
    pub again: usize,
    /// rows of an iteration that skips the first ones
    pub skipped: Vec<Row>,
    pub count: usize,
    pub last: Option<Row>,
    pub hint: (usize, Option<usize>),
}

pub struct Shape {
    pub params: &'static [P],
    /// every row; `limit` bounds a runaway iteration; mutable items are rewritten when salted
    pub collect: fn(&World, Option<u64>, usize) -> Vec<Row>,
    /// the first `k` rows, then whole iterations of the same query
    pub partial: fn(&World, usize, usize) -> Partial,
    pub get: fn(&World, EcsId, Option<u64>) -> Option<Row>,
    /// `get` of several entities through one query
    pub get_many: fn(&World, &[EcsId]) -> Vec<Option<Row>>,
    /// obtains the query, does `f` while it is alive
    pub hold: fn(&World, &mut dyn FnMut()),
}

macro_rules! shape {
    ([$($p:expr),*], $t:ty, ($($x:ident),*,)) => {
        Shape {
            params: &[$($p),*],
            collect: |w, salt, limit| {
                let mut q = w.query::<$t>();
                let mut out = Vec::new();
                for ($($x),*,) in q.iter() {
                    out.push(vec![$($x.cell(salt)),*]);
                    if out.len() > limit { break; }
                }
                out
            },
            partial: |w, k, limit| {
                let mut q = w.query::<$t>();
                let mut first = Vec::new();
                {
                    let mut it = q.iter();
                    while first.len() < k {
                        match it.next() {
                            Some(($($x),*,)) => first.push(vec![$($x.cell(None)),*]),
                            None => break,
                        }
                    }
                }
                let mut out = Partial { first, all: Vec::new(), again: 0, skipped: Vec::new(), count: 0, last: None, hint: (0, None) };
                {
                    let mut it = q.iter();
                    out.hint = it.size_hint();
                    while let Some(($($x),*,)) = it.next() {
                        out.all.push(vec![$($x.cell(None)),*]);
                        if out.all.len() > limit { return out; }
                    }
                    out.again = (0..3).filter(|_| it.next().is_some()).count();
                }
                out.skipped = q.iter().skip(k).take(limit).map(|($($x),*,)| vec![$($x.cell(None)),*]).collect();
                out.count = q.iter().count();
                out.last = q.iter().last().map(|($($x),*,)| vec![$($x.cell(None)),*]);
                out
            },
            get: |w, e, salt| {
                let mut q = w.query::<$t>();
                let r = q.get(e).map(|($($x),*,)| vec![$($x.cell(salt)),*]);
                r
            },
            get_many: |w, es| {
                let mut q = w.query::<$t>();
                es.iter().map(|e| q.get(*e).map(|($($x),*,)| vec![$($x.cell(None)),*])).collect()
            },
            hold: |w, f| {
                let mut q = w.query::<$t>();
                let _ = q.iter().next().is_some();
                f();
                drop(q);
            },
        }
    };
}

include!("shapes_gen.rs");
