//! Reference semantics of the standard-library operations the analysed crate uses, written as plain
//! loops so that the value-flow analysis sees library calls and hand-written loops in one form.
//! Only ever analysed; the functions in `x` are primitives of the analysis.
#![allow(dead_code, unused_variables, unused_mut, clippy::all)]
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::ops::{ControlFlow, Range, RangeInclusive};

pub mod x {
    // primitives
    pub fn elem<'a, T>(s: &'a [T], i: usize) -> &'a T { unimplemented!() }
    pub fn elem_ptr<'a, T>(s: *mut [T], i: usize) -> &'a mut T { unimplemented!() }
    pub fn take_elem<T>(s: &Vec<T>, i: usize) -> T { unimplemented!() }
    pub fn sub<'a, T>(s: &'a [T], i: usize, n: usize) -> &'a [T] { unimplemented!() }
    pub fn sub_mut<'a, T>(s: *mut [T], i: usize, n: usize) -> &'a mut [T] { unimplemented!() }
    pub fn zero<T>() -> T { unimplemented!() }
    pub fn one<T>() -> T { unimplemented!() }
    pub fn add<A, B>(a: A, b: B) -> A { unimplemented!() }
    pub fn mul<A, B>(a: A, b: B) -> A { unimplemented!() }
    pub fn cmp<A, B>(a: &A, b: &B) -> std::cmp::Ordering { unimplemented!() }
    pub fn eq<A, B>(a: &A, b: &B) -> bool { unimplemented!() }
    pub fn clone<A>(a: &A) -> A { unimplemented!() }
    pub fn deref_clone<A, B>(a: A) -> B { unimplemented!() }
    pub fn dup<A>(a: &A) -> A { unimplemented!() }
    pub fn itlen<I>(i: &I) -> usize { unimplemented!() }
    pub fn into_iter<I, J>(i: I) -> J { unimplemented!() }
    pub fn from<A, B>(a: A) -> B { unimplemented!() }
}

// ------------------------------------------------------------------ iterators

pub struct SliceIter<'a, T> { s: &'a [T], pos: usize, end: usize }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.pos < self.end { let r = x::elem(self.s, self.pos); self.pos += 1; Some(r) } else { None }
    }
}
impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.pos < self.end { self.end -= 1; Some(x::elem(self.s, self.end)) } else { None }
    }
}
impl<'a, T> SliceIter<'a, T> { fn itlen(&self) -> usize { self.end - self.pos } }
pub fn slice_iter<'a, T>(s: &'a [T]) -> SliceIter<'a, T> { SliceIter { s, pos: 0, end: s.len() } }

pub struct SliceIterMut<T> { s: *mut [T], pos: usize, end: usize }
impl<T: 'static> Iterator for SliceIterMut<T> {
    type Item = &'static mut T;
    fn next(&mut self) -> Option<&'static mut T> {
        if self.pos < self.end { let r = x::elem_ptr(self.s, self.pos); self.pos += 1; Some(r) } else { None }
    }
}
impl<T: 'static> DoubleEndedIterator for SliceIterMut<T> {
    fn next_back(&mut self) -> Option<&'static mut T> {
        if self.pos < self.end { self.end -= 1; Some(x::elem_ptr(self.s, self.end)) } else { None }
    }
}
impl<T> SliceIterMut<T> { fn itlen(&self) -> usize { self.end - self.pos } }
pub fn slice_iter_mut<T>(s: &mut [T]) -> SliceIterMut<T> { SliceIterMut { pos: 0, end: s.len(), s: s as *mut [T] } }

pub struct IntoIter<T> { v: Vec<T>, pos: usize, end: usize }
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos < self.end { let r = x::take_elem(&self.v, self.pos); self.pos += 1; Some(r) } else { None }
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.pos < self.end { self.end -= 1; Some(x::take_elem(&self.v, self.end)) } else { None }
    }
}
impl<T> IntoIter<T> { fn itlen(&self) -> usize { self.end - self.pos } }
pub fn vec_into_iter<T>(v: Vec<T>) -> IntoIter<T> { let end = v.len(); IntoIter { v, pos: 0, end } }

pub struct OptionIter<T> { o: Option<T> }
impl<T> Iterator for OptionIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.o.take() } }
impl<T> DoubleEndedIterator for OptionIter<T> { fn next_back(&mut self) -> Option<T> { self.o.take() } }
impl<T> OptionIter<T> { fn itlen(&self) -> usize { if self.o.is_some() { 1 } else { 0 } } }
pub fn option_into_iter<T>(o: Option<T>) -> OptionIter<T> { OptionIter { o } }
pub fn once<T>(v: T) -> OptionIter<T> { OptionIter { o: Some(v) } }
pub fn empty<T>() -> OptionIter<T> { OptionIter { o: None } }

pub fn range_next(r: &mut Range<usize>) -> Option<usize> {
    if r.start < r.end { let x = r.start; r.start += 1; Some(x) } else { None }
}
pub fn range_next_back(r: &mut Range<usize>) -> Option<usize> {
    if r.start < r.end { r.end -= 1; Some(r.end) } else { None }
}
pub fn range_itlen(r: &Range<usize>) -> usize { if r.start < r.end { r.end - r.start } else { 0 } }
pub fn range_contains<T, U>(r: &Range<T>, v: &U) -> bool { x::cmp(&r.start, v) != Ordering::Greater && x::cmp(v, &r.end) == Ordering::Less }
pub fn range_is_empty<T>(r: &Range<T>) -> bool { x::cmp(&r.start, &r.end) != Ordering::Less }
pub fn range_len(r: &Range<usize>) -> usize { if r.start < r.end { r.end - r.start } else { 0 } }

/// a..=b as a half-open pair
pub struct Incl<T> { start: T, end: T, done: bool }
pub fn incl_new<T>(a: T, b: T) -> Incl<T> { Incl { start: a, end: b, done: false } }
impl Iterator for Incl<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if !self.done && self.start <= self.end { let x = self.start; self.start += 1; Some(x) } else { None }
    }
}
impl DoubleEndedIterator for Incl<usize> {
    fn next_back(&mut self) -> Option<usize> {
        if !self.done && self.start <= self.end {
            let x = self.end;
            if self.end == 0 { self.done = true; } else { self.end -= 1; }
            Some(x)
        } else { None }
    }
}
impl Incl<usize> { fn itlen(&self) -> usize { if !self.done && self.start <= self.end { self.end + 1 - self.start } else { 0 } } }
pub fn incl_contains<T, U>(r: &Incl<T>, v: &U) -> bool { x::cmp(&r.start, v) != Ordering::Greater && x::cmp(v, &r.end) != Ordering::Greater }
pub fn incl_start<T>(r: &Incl<T>) -> &T { &r.start }
pub fn incl_end<T>(r: &Incl<T>) -> &T { &r.end }

pub struct Map<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<I, F> Map<I, F> { fn itlen(&self) -> usize { x::itlen(&self.it) } }
pub fn map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }

pub struct Filter<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None }
        }
    }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
    fn next_back(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next_back() { Some(x) => { if (self.f)(&x) { return Some(x); } } None => return None }
        }
    }
}
pub fn filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }

pub struct FilterMap<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop {
            match self.it.next() { Some(x) => { if let Some(y) = (self.f)(x) { return Some(y); } } None => return None }
        }
    }
}
pub fn filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
            None => None,
        }
    }
}
impl<A: DoubleEndedIterator, B: DoubleEndedIterator> DoubleEndedIterator for Zip<A, B> {
    fn next_back(&mut self) -> Option<(A::Item, B::Item)> {
        let la = x::itlen(&self.a);
        let lb = x::itlen(&self.b);
        let mut i = lb;
        while i < la { self.a.next_back(); i += 1; }
        let mut j = la;
        while j < lb { self.b.next_back(); j += 1; }
        match self.a.next_back() {
            Some(x) => match self.b.next_back() { Some(y) => Some((x, y)), None => None },
            None => None,
        }
    }
}
impl<A, B> Zip<A, B> { fn itlen(&self) -> usize { let a = x::itlen(&self.a); let b = x::itlen(&self.b); if a < b { a } else { b } } }
pub fn zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Enumerate<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { Some(x) => { let n = self.n; self.n += 1; Some((n, x)) } None => None }
    }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Enumerate<I> {
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next_back() { Some(x) => { let l = x::itlen(&self.it); Some((self.n + l, x)) } None => None }
    }
}
impl<I> Enumerate<I> { fn itlen(&self) -> usize { x::itlen(&self.it) } }
pub fn enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }

pub struct Rev<I> { it: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.it.next() } }
impl<I> Rev<I> { fn itlen(&self) -> usize { x::itlen(&self.it) } }
pub fn rev<I>(it: I) -> Rev<I> { Rev { it } }

pub struct Skip<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 { self.n -= 1; if self.it.next().is_none() { return None; } }
        self.it.next()
    }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Skip<I> {
    fn next_back(&mut self) -> Option<I::Item> { if x::itlen(&self.it) > self.n { self.it.next_back() } else { None } }
}
impl<I> Skip<I> { fn itlen(&self) -> usize { let l = x::itlen(&self.it); if l > self.n { l - self.n } else { 0 } } }
pub fn skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }

pub struct Take<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n -= 1; self.it.next() } else { None } }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Take<I> {
    fn next_back(&mut self) -> Option<I::Item> {
        let mut l = x::itlen(&self.it);
        while l > self.n { self.it.next_back(); l -= 1; }
        if self.n > 0 { self.n -= 1; self.it.next_back() } else { None }
    }
}
impl<I> Take<I> { fn itlen(&self) -> usize { let l = x::itlen(&self.it); if l < self.n { l } else { self.n } } }
pub fn take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }

pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.it.next() {
            Some(x) => { if (self.f)(&x) { Some(x) } else { self.done = true; None } }
            None => None,
        }
    }
}
pub fn take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }

pub struct SkipWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return self.it.next(); }
        loop {
            match self.it.next() {
                Some(x) => { if !(self.f)(&x) { self.done = true; return Some(x); } }
                None => return None,
            }
        }
    }
}
pub fn skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, done: false } }

pub struct StepBy<I> { it: I, step: usize, first: bool }
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.first { self.first = false; return self.it.next(); }
        let mut i = 1;
        while i < self.step { if self.it.next().is_none() { return None; } i += 1; }
        self.it.next()
    }
}
pub fn step_by<I>(it: I, step: usize) -> StepBy<I> { StepBy { it, step, first: true } }

pub struct Chain<A, B> { a: A, b: B }
impl<T, A: Iterator<Item = T>, B: Iterator<Item = T>> Iterator for Chain<A, B> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.a.next() { Some(x) => Some(x), None => self.b.next() } }
}
impl<T, A: DoubleEndedIterator<Item = T>, B: DoubleEndedIterator<Item = T>> DoubleEndedIterator for Chain<A, B> {
    fn next_back(&mut self) -> Option<T> { match self.b.next_back() { Some(x) => Some(x), None => self.a.next_back() } }
}
impl<A, B> Chain<A, B> { fn itlen(&self) -> usize { x::itlen(&self.a) + x::itlen(&self.b) } }
pub fn chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a, b: b.into_iter() } }

pub struct Cloned<I> { it: I }
impl<'a, T: 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(x::clone(x)), None => None } }
}
impl<'a, T: 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> {
    fn next_back(&mut self) -> Option<T> { match self.it.next_back() { Some(x) => Some(x::clone(x)), None => None } }
}
impl<I> Cloned<I> { fn itlen(&self) -> usize { x::itlen(&self.it) } }
pub fn cloned<I>(it: I) -> Cloned<I> { Cloned { it } }

pub struct Peekable<I: Iterator> { it: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.p.take() { Some(v) => v, None => self.it.next() } }
}
pub fn peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, p: None } }
pub fn peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.p.is_none() { p.p = Some(p.it.next()); }
    match &p.p { Some(Some(v)) => Some(v), _ => None }
}

pub struct FlatMap<I, F, J> { it: I, f: F, cur: Option<J> }
impl<I: Iterator, J: IntoIterator, F: FnMut(I::Item) -> J> Iterator for FlatMap<I, F, J::IntoIter> {
    type Item = J::Item;
    fn next(&mut self) -> Option<J::Item> {
        loop {
            if let Some(j) = &mut self.cur {
                if let Some(y) = j.next() { return Some(y); }
            }
            match self.it.next() { Some(x) => { self.cur = Some((self.f)(x).into_iter()); } None => return None }
        }
    }
}
pub fn flat_map<I, F, J>(it: I, f: F) -> FlatMap<I, F, J> { FlatMap { it, f, cur: None } }

pub struct Flatten<I, J> { it: I, cur: Option<J> }
impl<I: Iterator> Iterator for Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(j) = &mut self.cur {
                if let Some(y) = j.next() { return Some(y); }
            }
            match self.it.next() { Some(x) => { self.cur = Some(x.into_iter()); } None => return None }
        }
    }
}
pub fn flatten<I, J>(it: I) -> Flatten<I, J> { Flatten { it, cur: None } }

pub struct RepeatWith<F> { f: F }
impl<A, F: FnMut() -> A> Iterator for RepeatWith<F> { type Item = A; fn next(&mut self) -> Option<A> { Some((self.f)()) } }
pub fn repeat_with<F>(f: F) -> RepeatWith<F> { RepeatWith { f } }
pub struct Repeat<A> { a: A }
impl<A> Iterator for Repeat<A> { type Item = A; fn next(&mut self) -> Option<A> { Some(x::clone(&self.a)) } }
pub fn repeat<A>(a: A) -> Repeat<A> { Repeat { a } }
pub struct FromFn<F> { f: F }
impl<A, F: FnMut() -> Option<A>> Iterator for FromFn<F> { type Item = A; fn next(&mut self) -> Option<A> { (self.f)() } }
pub fn from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub struct Successors<T, F> { cur: Option<T>, f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.cur.take() { Some(v) => { self.cur = (self.f)(&v); Some(v) } None => None }
    }
}
pub fn successors<T, F>(cur: Option<T>, f: F) -> Successors<T, F> { Successors { cur, f } }

pub struct Windows<'a, T> { s: &'a [T], pos: usize, n: usize }
impl<'a, T> Windows<'a, T> { fn itlen(&self) -> usize { if self.pos + self.n <= self.s.len() { self.s.len() + 1 - self.pos - self.n } else { 0 } } }
impl<'a, T> Iterator for Windows<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.pos + self.n <= self.s.len() { let r = x::sub(self.s, self.pos, self.n); self.pos += 1; Some(r) } else { None }
    }
}
pub fn windows<'a, T>(s: &'a [T], n: usize) -> Windows<'a, T> { Windows { s, pos: 0, n } }
pub struct Chunks<'a, T> { s: &'a [T], pos: usize, n: usize, exact: bool }
impl<'a, T> Chunks<'a, T> { fn itlen(&self) -> usize { let l = self.s.len(); if self.pos >= l { 0 } else { if self.exact { (l - self.pos) / self.n } else { (l - self.pos + self.n - 1) / self.n } } } }
impl<'a, T> Iterator for Chunks<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        let l = self.s.len();
        if self.pos >= l { return None; }
        let k = if self.pos + self.n <= l { self.n } else { if self.exact { return None; } l - self.pos };
        let r = x::sub(self.s, self.pos, k);
        self.pos += k;
        Some(r)
    }
}
pub fn chunks<'a, T>(s: &'a [T], n: usize) -> Chunks<'a, T> { if n == 0 { panic!() } Chunks { s, pos: 0, n, exact: false } }
pub fn chunks_exact<'a, T>(s: &'a [T], n: usize) -> Chunks<'a, T> { if n == 0 { panic!() } Chunks { s, pos: 0, n, exact: true } }
pub struct ChunksMut<T> { s: *mut [T], len: usize, pos: usize, n: usize, exact: bool }
impl<T: 'static> Iterator for ChunksMut<T> {
    type Item = &'static mut [T];
    fn next(&mut self) -> Option<&'static mut [T]> {
        let l = self.len;
        if self.pos >= l { return None; }
        let k = if self.pos + self.n <= l { self.n } else { if self.exact { return None; } l - self.pos };
        let r = x::sub_mut(self.s, self.pos, k);
        self.pos += k;
        Some(r)
    }
}
pub fn chunks_mut<T>(s: &mut [T], n: usize) -> ChunksMut<T> { if n == 0 { panic!() } ChunksMut { len: s.len(), s: s as *mut [T], pos: 0, n, exact: false } }
pub fn chunks_exact_mut<T>(s: &mut [T], n: usize) -> ChunksMut<T> { if n == 0 { panic!() } ChunksMut { len: s.len(), s: s as *mut [T], pos: 0, n, exact: true } }

pub struct ByRef<'a, I> { it: &'a mut I }
pub fn by_ref_next<I: Iterator>(r: &mut &mut I) -> Option<I::Item> { (**r).next() }

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next() { Some(x) => { acc = f(acc, x); } None => return acc } }
}
pub fn try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    loop { match it.next() { Some(x) => { match f(acc, x) { Some(a) => { acc = a; } None => return None } } None => return Some(acc) } }
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, f: F) -> Option<I::Item> {
    match it.next() { Some(x) => Some(fold(it, x, f)), None => None }
}
pub fn sum<I: Iterator, S>(mut it: I) -> S {
    let mut acc: S = x::zero();
    loop { match it.next() { Some(v) => { acc = x::add(acc, v); } None => return acc } }
}
pub fn sum_option<T, I: Iterator<Item = Option<T>>, S>(mut it: I) -> Option<S> {
    let mut acc: S = x::zero();
    loop { match it.next() { Some(Some(v)) => { acc = x::add(acc, v); } Some(None) => return None, None => return Some(acc) } }
}
pub fn sum_result<T, E, I: Iterator<Item = Result<T, E>>, S>(mut it: I) -> Result<S, E> {
    let mut acc: S = x::zero();
    loop { match it.next() { Some(Ok(v)) => { acc = x::add(acc, v); } Some(Err(e)) => return Err(e), None => return Ok(acc) } }
}
pub fn product_option<T, I: Iterator<Item = Option<T>>, S>(mut it: I) -> Option<S> {
    let mut acc: S = x::one();
    loop { match it.next() { Some(Some(v)) => { acc = x::mul(acc, v); } Some(None) => return None, None => return Some(acc) } }
}
pub fn product_result<T, E, I: Iterator<Item = Result<T, E>>, S>(mut it: I) -> Result<S, E> {
    let mut acc: S = x::one();
    loop { match it.next() { Some(Ok(v)) => { acc = x::mul(acc, v); } Some(Err(e)) => return Err(e), None => return Ok(acc) } }
}
pub fn slice_split_first_mut<'a, T>(s: &'a mut [T]) -> Option<(&'a mut T, &'a mut [T])> { let n = s.len(); let p = s as *mut [T]; if n == 0 { None } else { Some((x::elem_ptr(p, 0), x::sub_mut(p, 1, n - 1))) } }
pub fn slice_split_last_mut<'a, T>(s: &'a mut [T]) -> Option<(&'a mut T, &'a mut [T])> { let n = s.len(); let p = s as *mut [T]; if n == 0 { None } else { Some((x::elem_ptr(p, n - 1), x::sub_mut(p, 0, n - 1))) } }
pub fn product<I: Iterator, S>(mut it: I) -> S {
    let mut acc: S = x::one();
    loop { match it.next() { Some(v) => { acc = x::mul(acc, v); } None => return acc } }
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop { match it.next() { Some(v) => f(v), None => return } }
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    loop { match it.next() { Some(_) => { n += 1; } None => return n } }
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    loop { match it.next() { Some(v) => { r = Some(v); } None => return r } }
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = n;
    while i > 0 { if it.next().is_none() { return None; } i -= 1; }
    it.next()
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(v) => { if !f(v) { return false; } } None => return true } }
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { Some(v) => { if f(v) { return true; } } None => return false } }
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next() { Some(v) => { if f(&v) { return Some(v); } } None => return None } }
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop { match it.next() { Some(v) => { if let Some(y) = f(v) { return Some(y); } } None => return None } }
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    loop { match it.next() { Some(v) => { if f(v) { return Some(n); } n += 1; } None => return None } }
}
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    loop { match it.next() { Some(v) => { if f(&best, &v) != Ordering::Greater { best = v; } } None => return Some(best) } }
}
pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    loop { match it.next() { Some(v) => { if f(&best, &v) == Ordering::Greater { best = v; } } None => return Some(best) } }
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    loop { match it.next() { Some(v) => { if x::cmp(&best, &v) != Ordering::Greater { best = v; } } None => return Some(best) } }
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    loop { match it.next() { Some(v) => { if x::cmp(&best, &v) == Ordering::Greater { best = v; } } None => return Some(best) } }
}
pub fn max_by_key<I: Iterator, K, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    let mut k = f(&best);
    loop { match it.next() { Some(v) => { let k2 = f(&v); if x::cmp(&k, &k2) != Ordering::Greater { best = v; k = k2; } } None => return Some(best) } }
}
pub fn min_by_key<I: Iterator, K, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(v) => v, None => return None };
    let mut k = f(&best);
    loop { match it.next() { Some(v) => { let k2 = f(&v); if x::cmp(&k, &k2) == Ordering::Greater { best = v; k = k2; } } None => return Some(best) } }
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut r = Vec::new();
    loop { match it.next() { Some(v) => r.push(v), None => return r } }
}
pub fn collect_map<K: Eq + Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> HashMap<K, V> {
    let mut r = HashMap::new();
    loop { match it.next() { Some((k, v)) => { r.insert(k, v); } None => return r } }
}
pub fn collect_set<K: Eq + Hash, I: Iterator<Item = K>>(mut it: I) -> HashSet<K> {
    let mut r = HashSet::new();
    loop { match it.next() { Some(k) => { r.insert(k); } None => return r } }
}
pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut r = Vec::new();
    loop { match it.next() { Some(Some(v)) => r.push(v), Some(None) => return None, None => return Some(r) } }
}
pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut r = Vec::new();
    loop { match it.next() { Some(Ok(v)) => r.push(v), Some(Err(e)) => return Err(e), None => return Ok(r) } }
}
pub fn unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut r = Vec::new();
    let mut s = Vec::new();
    loop { match it.next() { Some((a, b)) => { r.push(a); s.push(b); } None => return (r, s) } }
}
pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut r = Vec::new();
    let mut s = Vec::new();
    loop { match it.next() { Some(v) => { if f(&v) { r.push(v) } else { s.push(v) } } None => return (r, s) } }
}
pub fn iter_eq<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> bool {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            Some(x) => match b.next() { Some(y) => { if !x::eq(&x, &y) { return false; } } None => return false },
            None => return b.next().is_none(),
        }
    }
}

pub struct Scan<I, S, F> { it: I, s: S, f: F, done: bool }
impl<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None } }
}
pub fn scan<I, S, F>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f, done: false } }
pub struct MapWhile<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } }
}
pub fn map_while<I, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub struct Inspect<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item)> DoubleEndedIterator for Inspect<I, F> {
    fn next_back(&mut self) -> Option<I::Item> { match self.it.next_back() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
impl<I, F> Inspect<I, F> { fn itlen(&self) -> usize { x::itlen(&self.it) } }
pub fn inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub struct Cycle<I> { orig: I, it: I }
impl<I: Iterator> Iterator for Cycle<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { Some(x) => Some(x), None => { self.it = x::dup(&self.orig); self.it.next() } }
    }
}
pub fn cycle<I>(it: I) -> Cycle<I> { let orig = x::dup(&it); Cycle { orig, it } }
pub fn repeat_n<A>(a: A, n: usize) -> Take<Repeat<A>> { take(repeat(a), n) }
pub fn rposition<I: DoubleEndedIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = x::itlen(it);
    loop { match it.next_back() { Some(v) => { n -= 1; if f(v) { return Some(n); } } None => return None } }
}
pub fn rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next_back() { Some(v) => { if f(&v) { return Some(v); } } None => return None } }
}
pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next_back() { Some(x) => { acc = f(acc, x); } None => return acc } }
}
pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = n;
    while i > 0 { if it.next_back().is_none() { return None; } i -= 1; }
    it.next_back()
}
pub fn try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    loop { match it.next() { Some(x) => { match f(acc, x) { Ok(a) => { acc = a; } Err(e) => return Err(e) } } None => return Ok(acc) } }
}
pub fn try_fold_flow<I: Iterator, B, E, F: FnMut(B, I::Item) -> ControlFlow<E, B>>(it: &mut I, init: B, mut f: F) -> ControlFlow<E, B> {
    let mut acc = init;
    loop { match it.next() { Some(x) => { match f(acc, x) { ControlFlow::Continue(a) => { acc = a; } ControlFlow::Break(e) => return ControlFlow::Break(e) } } None => return ControlFlow::Continue(acc) } }
}
pub fn try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    loop { match it.next() { Some(x) => { match f(x) { Some(_) => {} None => return None } } None => return Some(()) } }
}
pub fn try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    loop { match it.next() { Some(x) => { match f(x) { Ok(_) => {} Err(e) => return Err(e) } } None => return Ok(()) } }
}
pub fn try_for_each_flow<I: Iterator, E, F: FnMut(I::Item) -> ControlFlow<E, ()>>(it: &mut I, mut f: F) -> ControlFlow<E, ()> {
    loop { match it.next() { Some(x) => { match f(x) { ControlFlow::Continue(_) => {} ControlFlow::Break(e) => return ControlFlow::Break(e) } } None => return ControlFlow::Continue(()) } }
}
pub fn iter_cmp<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> Ordering {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            Some(x) => match b.next() { Some(y) => { let c = x::cmp(&x, &y); if c != Ordering::Equal { return c; } } None => return Ordering::Greater },
            None => return if b.next().is_none() { Ordering::Equal } else { Ordering::Less },
        }
    }
}
pub fn iter_ne<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool { !iter_eq(a, b) }
pub fn iter_lt<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool { ord_is_lt(iter_cmp(a, b)) }
pub fn iter_le<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool { ord_is_le(iter_cmp(a, b)) }
pub fn iter_gt<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool { ord_is_gt(iter_cmp(a, b)) }
pub fn iter_ge<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool { ord_is_ge(iter_cmp(a, b)) }
pub fn next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
    let v = match p.p.take() { Some(v) => v, None => p.it.next() };
    match v {
        Some(x) => { if f(&x) { Some(x) } else { p.p = Some(Some(x)); None } }
        None => { p.p = Some(None); None }
    }
}
pub fn array_map<T, U, F: FnMut(T) -> U>(v: Vec<T>, mut f: F) -> Vec<U> {
    let mut r = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n { r.push(f(x::take_elem(&v, i))); i += 1; }
    r
}
pub fn array_from_fn<U, F: FnMut(usize) -> U>(n: usize, mut f: F) -> Vec<U> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < n { r.push(f(i)); i += 1; }
    r
}
pub struct RChunks<'a, T> { s: &'a [T], end: usize, n: usize }
impl<'a, T> Iterator for RChunks<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.end == 0 { return None; }
        let k = if self.end < self.n { self.end } else { self.n };
        self.end -= k;
        Some(x::sub(self.s, self.end, k))
    }
}
pub fn rchunks<'a, T>(s: &'a [T], n: usize) -> RChunks<'a, T> { if n == 0 { panic!() } RChunks { s, end: s.len(), n } }
pub fn chunks_remainder<'a, T>(c: &Chunks<'a, T>) -> &'a [T] { let l = c.s.len(); let r = l % c.n; x::sub(c.s, l - r, r) }

// ------------------------------------------------------------------ Option / Result

pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(v) => Some(f(v)), None => None } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(v) => f(v), None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(v) => f(v), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(v) => f(v), None => d() } }
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(v) => { if f(&v) { Some(v) } else { None } } None => None } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(v) => v, None => panic!() } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(v) => v, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(v) => v, None => f() } }
pub fn option_unwrap_or_default<T>(o: Option<T>) -> T { match o { Some(v) => v, None => x::zero() } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(v) => Ok(v), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, e: F) -> Result<T, E> { match o { Some(v) => Ok(v), None => Err(e()) } }
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(v) => Some(v), None => p } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(v) => Some(v), None => f() } }
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(a) => match p { Some(b) => Some((a, b)), None => None }, None => None } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(v) => f(v), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(v) => f(v), None => true } }
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(v) => Some(v), None => None } }
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(v) => Some(v), None => None } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { let r = x::dup(o); *o = None; r }
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { let r = x::dup(o); *o = Some(v); r }
pub fn option_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(v) => v, None => panic!() } }
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o { *o = Some(f()); }
    match o { Some(v) => v, None => panic!() }
}
pub fn option_cloned<T>(o: Option<&T>) -> Option<T> { match o { Some(v) => Some(x::clone(v)), None => None } }
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<T>, T> { match o { Some(v) => ControlFlow::Continue(v), None => ControlFlow::Break(None) } }

pub fn result_map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(v) => Ok(f(v)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(v) => Ok(v), Err(e) => Err(f(e)) } }
pub fn result_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(v) => f(v), Err(e) => Err(e) } }
pub fn result_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(v) => v, Err(_) => panic!() } }
pub fn result_unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!(), Err(e) => e } }
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(v) => v, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(v) => v, Err(e) => f(e) } }
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(v) => Some(v), Err(_) => None } }
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn result_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(v) => Ok(v), Err(e) => Err(e) } }
pub fn result_branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<T, E>, T> { match o { Ok(v) => ControlFlow::Continue(v), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }

// ------------------------------------------------------------------ ordering

pub fn ord_reverse(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub fn ord_then(o: Ordering, p: Ordering) -> Ordering { match o { Ordering::Equal => p, _ => o } }
pub fn ord_then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering { match o { Ordering::Equal => f(), _ => o } }
pub fn ord_is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn ord_is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn ord_is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
pub fn ord_is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn ord_is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
pub fn cmp_max<T>(a: T, b: T) -> T { if x::cmp(&b, &a) == Ordering::Less { a } else { b } }
pub fn cmp_min<T>(a: T, b: T) -> T { if x::cmp(&b, &a) == Ordering::Less { b } else { a } }

// ------------------------------------------------------------------ slices and vectors

pub fn slice_get<'a, T>(s: &'a [T], i: usize) -> Option<&'a T> { if i < s.len() { Some(x::elem(s, i)) } else { None } }
pub fn slice_get_mut<'a, T>(s: &'a mut [T], i: usize) -> Option<&'a mut T> { if i < s.len() { Some(x::elem_ptr(s as *mut [T], i)) } else { None } }
pub fn slice_get_range<'a, T>(s: &'a [T], r: Range<usize>) -> Option<&'a [T]> { if r.start <= r.end && r.end <= s.len() { Some(x::sub(s, r.start, r.end - r.start)) } else { None } }
pub fn slice_first<'a, T>(s: &'a [T]) -> Option<&'a T> { if s.len() > 0 { Some(x::elem(s, 0)) } else { None } }
pub fn slice_last<'a, T>(s: &'a [T]) -> Option<&'a T> { let n = s.len(); if n > 0 { Some(x::elem(s, n - 1)) } else { None } }
pub fn slice_first_mut<'a, T>(s: &'a mut [T]) -> Option<&'a mut T> { if s.len() > 0 { Some(x::elem_ptr(s as *mut [T], 0)) } else { None } }
pub fn slice_last_mut<'a, T>(s: &'a mut [T]) -> Option<&'a mut T> { let n = s.len(); if n > 0 { Some(x::elem_ptr(s as *mut [T], n - 1)) } else { None } }
pub fn slice_is_empty<T>(s: &[T]) -> bool { s.len() == 0 }
pub fn slice_contains<T>(s: &[T], v: &T) -> bool {
    let mut i = 0;
    while i < s.len() { if x::eq(x::elem(s, i), v) { return true; } i += 1; }
    false
}
pub fn slice_swap<T>(s: &mut [T], a: usize, b: usize) {
    let n = s.len();
    if a >= n || b >= n { panic!() }
    let p = s as *mut [T];
    let t = x::dup(x::elem(unsafe { &*p }, a));
    let u = x::dup(x::elem(unsafe { &*p }, b));
    *x::elem_ptr(p, a) = u;
    *x::elem_ptr(p, b) = t;
}
pub fn slice_reverse<T>(s: &mut [T]) {
    let n = s.len();
    let h = n / 2;
    let mut i = 0;
    while i < h { slice_swap(s, i, n - 1 - i); i += 1; }
}
pub fn slice_fill<T>(s: &mut [T], v: T) {
    let n = s.len();
    let p = s as *mut [T];
    let mut i = 0;
    while i < n { *x::elem_ptr(p, i) = x::clone(&v); i += 1; }
}
pub fn slice_copy_from<T>(s: &mut [T], o: &[T]) {
    let n = s.len();
    if n != o.len() { panic!() }
    let p = s as *mut [T];
    let mut i = 0;
    while i < n { *x::elem_ptr(p, i) = x::clone(x::elem(o, i)); i += 1; }
}
pub fn slice_split_at<'a, T>(s: &'a [T], m: usize) -> (&'a [T], &'a [T]) { let n = s.len(); if m > n { panic!() } (x::sub(s, 0, m), x::sub(s, m, n - m)) }
pub fn slice_split_at_mut<'a, T>(s: &'a mut [T], m: usize) -> (&'a mut [T], &'a mut [T]) {
    let n = s.len();
    if m > n { panic!() }
    let p = s as *mut [T];
    (x::sub_mut(p, 0, m), x::sub_mut(p, m, n - m))
}
pub fn slice_split_first<'a, T>(s: &'a [T]) -> Option<(&'a T, &'a [T])> { let n = s.len(); if n == 0 { None } else { Some((x::elem(s, 0), x::sub(s, 1, n - 1))) } }
pub fn slice_split_last<'a, T>(s: &'a [T]) -> Option<(&'a T, &'a [T])> { let n = s.len(); if n == 0 { None } else { Some((x::elem(s, n - 1), x::sub(s, 0, n - 1))) } }
pub fn slice_to_vec<T>(s: &[T]) -> Vec<T> {
    let mut r = Vec::new();
    let n = s.len();
    let mut i = 0;
    while i < n { r.push(x::clone(x::elem(s, i))); i += 1; }
    r
}
pub fn slice_eq<T>(a: &[T], b: &[T]) -> bool {
    let n = a.len();
    if n != b.len() { return false; }
    let mut i = 0;
    while i < n { if !x::eq(x::elem(a, i), x::elem(b, i)) { return false; } i += 1; }
    true
}
pub fn slice_cmp<T>(a: &[T], b: &[T]) -> Ordering {
    let n = a.len();
    let m = b.len();
    let mut i = 0;
    while i < n && i < m {
        let c = x::cmp(x::elem(a, i), x::elem(b, i));
        if c != Ordering::Equal { return c; }
        i += 1;
    }
    x::cmp(&n, &m)
}
pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) {
    let n = s.len();
    let p = s as *mut [T];
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 {
            if f(x::elem(unsafe { &*p }, j - 1), x::elem(unsafe { &*p }, j)) != Ordering::Greater { break; }
            slice_swap(unsafe { &mut *p }, j - 1, j);
            j -= 1;
        }
        i += 1;
    }
}
pub fn sort<T>(s: &mut [T]) { sort_by(s, |a, b| x::cmp(a, b)) }
pub fn sort_by_key<T, K, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { sort_by(s, |a, b| { let x = f(a); let y = f(b); x::cmp(&x, &y) }) }
pub fn binary_search<T>(s: &[T], v: &T) -> Result<usize, usize> { binary_search_by(s, |a| x::cmp(a, v)) }
pub fn vec_dedup<T>(v: &mut Vec<T>) {
    let mut r: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n {
        let m = r.len();
        let keep = m == 0 || !x::eq(x::elem(&r, m - 1), x::elem(v, i));
        if keep { r.push(x::take_elem(v, i)); }
        i += 1;
    }
    *v = r;
}
pub fn slice_concat<T>(s: &[Vec<T>]) -> Vec<T> {
    let mut r = Vec::new();
    let n = s.len();
    let mut i = 0;
    while i < n {
        let v = x::elem(s, i);
        let k = v.len();
        let mut j = 0;
        while j < k { r.push(x::clone(x::elem(v, j))); j += 1; }
        i += 1;
    }
    r
}
pub fn slice_repeat<T>(s: &[T], k: usize) -> Vec<T> {
    let mut r = Vec::new();
    let n = s.len();
    let mut j = 0;
    while j < k {
        let mut i = 0;
        while i < n { r.push(x::clone(x::elem(s, i))); i += 1; }
        j += 1;
    }
    r
}
pub fn slice_rotate_left<T>(s: &mut [T], k: usize) {
    let n = s.len();
    if k > n { panic!() }
    let c = slice_to_vec(s);
    let p = s as *mut [T];
    let mut i = 0;
    while i < n { let q = if i + k < n { i + k } else { i + k - n }; *x::elem_ptr(p, i) = x::take_elem(&c, q); i += 1; }
}
pub fn slice_rotate_right<T>(s: &mut [T], k: usize) { let n = s.len(); if k > n { panic!() } slice_rotate_left(s, n - k) }
pub fn slice_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
    let n = s.len();
    let p = s as *mut [T];
    let mut i = 0;
    while i < n { *x::elem_ptr(p, i) = f(); i += 1; }
}
pub fn slice_swap_with<T>(s: &mut [T], o: &mut [T]) {
    let n = s.len();
    if n != o.len() { panic!() }
    let p = s as *mut [T];
    let q = o as *mut [T];
    let mut i = 0;
    while i < n {
        let t = x::dup(x::elem(unsafe { &*p }, i));
        *x::elem_ptr(p, i) = x::dup(x::elem(unsafe { &*q }, i));
        *x::elem_ptr(q, i) = t;
        i += 1;
    }
}
pub fn slice_copy_within<T>(s: &mut [T], r: Range<usize>, at: usize) {
    let n = s.len();
    if r.start > r.end || r.end > n || at > n - (r.end - r.start) { panic!() }
    let c = slice_to_vec(s);
    let p = s as *mut [T];
    let mut i = r.start;
    while i < r.end { *x::elem_ptr(p, at + i - r.start) = x::take_elem(&c, i); i += 1; }
}
pub fn slice_starts_with<T>(s: &[T], o: &[T]) -> bool {
    let n = o.len();
    if n > s.len() { return false; }
    let mut i = 0;
    while i < n { if !x::eq(x::elem(s, i), x::elem(o, i)) { return false; } i += 1; }
    true
}
pub fn slice_ends_with<T>(s: &[T], o: &[T]) -> bool {
    let n = o.len();
    let l = s.len();
    if n > l { return false; }
    let mut i = 0;
    while i < n { if !x::eq(x::elem(s, l - n + i), x::elem(o, i)) { return false; } i += 1; }
    true
}
pub fn slice_is_sorted<T>(s: &[T]) -> bool {
    let n = s.len();
    let mut i = 1;
    while i < n { if x::cmp(x::elem(s, i - 1), x::elem(s, i)) == Ordering::Greater { return false; } i += 1; }
    true
}
pub fn partition_point<T, F: FnMut(&T) -> bool>(s: &[T], mut f: F) -> usize {
    match binary_search_by(s, |a| if f(a) { Ordering::Less } else { Ordering::Greater }) { Ok(i) => i, Err(i) => i }
}
// the probes of the library itself, which matter where the slice is not sorted
pub fn binary_search_by<T, F: FnMut(&T) -> Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut size = s.len();
    if size == 0 { return Err(0); }
    let mut base = 0;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        if f(x::elem(s, mid)) != Ordering::Greater { base = mid; }
        size -= half;
    }
    let c = f(x::elem(s, base));
    if c == Ordering::Equal { Ok(base) } else if c == Ordering::Less { Err(base + 1) } else { Err(base) }
}
pub fn binary_search_by_key<T, K, F: FnMut(&T) -> K>(s: &[T], v: &K, mut f: F) -> Result<usize, usize> { binary_search_by(s, |a| { let k = f(a); x::cmp(&k, v) }) }
pub fn vec_dedup_by_key<T, K, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    let mut r: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    let mut last: Option<K> = None;
    while i < n {
        let k = f(x::elem_ptr(v.as_mut_slice() as *mut [T], i));
        let keep = match &last { Some(l) => !x::eq(l, &k), None => true };
        if keep { r.push(x::take_elem(v, i)); last = Some(k); }
        i += 1;
    }
    *v = r;
}
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(f()); }
}
pub fn vec_splice<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, r: Range<usize>, it: I) -> IntoIter<T> {
    let n = v.len();
    if r.start > r.end || r.end > n { panic!() }
    let mut a: Vec<T> = Vec::new();
    let mut b: Vec<T> = Vec::new();
    let mut i = 0;
    while i < r.start { a.push(x::take_elem(v, i)); i += 1; }
    while i < r.end { b.push(x::take_elem(v, i)); i += 1; }
    vec_extend(&mut a, it);
    while i < n { a.push(x::take_elem(v, i)); i += 1; }
    *v = a;
    vec_into_iter(b)
}
pub fn deque_pop_front<T>(v: &mut Vec<T>) -> Option<T> { if v.len() == 0 { None } else { Some(vec_remove(v, 0)) } }
pub fn deque_push_front<T>(v: &mut Vec<T>, x: T) { vec_insert(v, 0, x) }
pub fn deque_remove<T>(v: &mut Vec<T>, at: usize) -> Option<T> { if at < v.len() { Some(vec_remove(v, at)) } else { None } }
pub fn heap_top<T>(v: &Vec<T>) -> usize {
    let n = v.len();
    let mut b = 0;
    let mut i = 1;
    while i < n { if x::cmp(x::elem(v, b), x::elem(v, i)) == Ordering::Less { b = i; } i += 1; }
    b
}
pub fn heap_pop<T>(v: &mut Vec<T>) -> Option<T> { if v.len() == 0 { None } else { let b = heap_top(v); Some(vec_remove(v, b)) } }
pub fn heap_peek<T>(v: &Vec<T>) -> Option<&T> { if v.len() == 0 { None } else { let b = heap_top(v); Some(x::elem(v, b)) } }
pub fn heap_sorted<T>(mut v: Vec<T>) -> Vec<T> { sort(&mut v); v }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n { if f(x::elem(v, i)) { r.push(x::take_elem(v, i)); } i += 1; }
    *v = r;
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop { match it.next() { Some(x) => v.push(x), None => return } }
}
pub fn vec_extend_clone<'a, T: 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop { match it.next() { Some(x) => v.push(x::clone(x)), None => return } }
}
pub fn vec_extend_from_slice<T>(v: &mut Vec<T>, s: &[T]) {
    let n = s.len();
    let mut i = 0;
    while i < n { v.push(x::clone(x::elem(s, i))); i += 1; }
}
pub fn vec_append<T>(v: &mut Vec<T>, o: &mut Vec<T>) {
    let n = o.len();
    let mut i = 0;
    while i < n { v.push(x::take_elem(o, i)); i += 1; }
    *o = Vec::new();
}
pub fn vec_resize<T>(v: &mut Vec<T>, n: usize, x: T) {
    while v.len() > n { v.pop(); }
    while v.len() < n { v.push(x::clone(&x)); }
}
pub fn vec_from_elem<T>(x: T, n: usize) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < n { r.push(x::clone(&x)); i += 1; }
    r
}
pub fn vec_insert<T>(v: &mut Vec<T>, at: usize, x: T) {
    let n = v.len();
    if at > n { panic!() }
    let mut r: Vec<T> = Vec::new();
    let mut i = 0;
    while i < at { r.push(x::take_elem(v, i)); i += 1; }
    r.push(x);
    while i < n { r.push(x::take_elem(v, i)); i += 1; }
    *v = r;
}
pub fn vec_remove<T>(v: &mut Vec<T>, at: usize) -> T {
    let n = v.len();
    if at >= n { panic!() }
    let mut r: Vec<T> = Vec::new();
    let x = x::take_elem(v, at);
    let mut i = 0;
    while i < n { if i != at { r.push(x::take_elem(v, i)); } i += 1; }
    *v = r;
    x
}
pub fn vec_swap_remove<T>(v: &mut Vec<T>, at: usize) -> T {
    let n = v.len();
    if at >= n { panic!() }
    let x = x::take_elem(v, at);
    slice_swap(v, at, n - 1);
    v.pop();
    x
}
pub fn vec_drain<T>(v: &mut Vec<T>, r: Range<usize>) -> IntoIter<T> {
    let n = v.len();
    if r.start > r.end || r.end > n { panic!() }
    let mut a: Vec<T> = Vec::new();
    let mut b: Vec<T> = Vec::new();
    let mut i = 0;
    while i < n {
        let t = x::take_elem(v, i);
        if i >= r.start && i < r.end { b.push(t) } else { a.push(t) }
        i += 1;
    }
    *v = a;
    vec_into_iter(b)
}
pub fn vec_split_off<T>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    let n = v.len();
    if at > n { panic!() }
    let mut r = Vec::new();
    let mut i = at;
    while i < n { r.push(x::take_elem(v, i)); i += 1; }
    v.truncate(at);
    r
}
pub fn mem_swap<T>(a: &mut T, b: &mut T) { let t = x::dup(a); *a = x::dup(b); *b = t; }
pub fn mem_replace<T>(a: &mut T, b: T) -> T { let t = x::dup(a); *a = b; t }
pub fn mem_take<T>(a: &mut T) -> T { let t = x::dup(a); *a = x::zero(); t }

// ------------------------------------------------------------------ maps

pub fn entry_or_insert<'a, K: Eq + Hash, V>(m: &'a mut HashMap<K, V>, k: K, v: V) -> &'a mut V {
    if !m.contains_key(&k) { let k2 = x::dup(&k); m.insert(k2, v); }
    match m.get_mut(&k) { Some(r) => r, None => panic!() }
}
pub fn entry_or_insert_with<'a, K: Eq + Hash, V, F: FnOnce() -> V>(m: &'a mut HashMap<K, V>, k: K, f: F) -> &'a mut V {
    if !m.contains_key(&k) { let k2 = x::dup(&k); m.insert(k2, f()); }
    match m.get_mut(&k) { Some(r) => r, None => panic!() }
}
pub fn map_extend<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V>, it: I) {
    let mut it = it.into_iter();
    loop { match it.next() { Some((k, v)) => { m.insert(k, v); } None => return } }
}
pub fn set_extend<K: Eq + Hash, I: IntoIterator<Item = K>>(m: &mut HashSet<K>, it: I) {
    let mut it = it.into_iter();
    loop { match it.next() { Some(k) => { m.insert(k); } None => return } }
}

// ------------------------------------------------------------------ less common operations

pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(v) => v, None => None } }
pub fn option_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if let None = o { *o = Some(v); }
    match o { Some(v) => v, None => panic!() }
}
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(v) => { f(&v); Some(v) } None => None } }
pub fn option_iter<T>(o: &Option<T>) -> OptionIter<&T> { match o { Some(v) => OptionIter { o: Some(v) }, None => OptionIter { o: None } } }
pub fn option_iter_mut<T>(o: &mut Option<T>) -> OptionIter<&mut T> { match o { Some(v) => OptionIter { o: Some(v) }, None => OptionIter { o: None } } }
pub fn option_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> {
    let yes = match o { Some(v) => f(v), None => false };
    if yes { option_take(o) } else { None }
}
pub fn option_unzip<T, U>(o: Option<(T, U)>) -> (Option<T>, Option<U>) { match o { Some((a, b)) => (Some(a), Some(b)), None => (None, None) } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn result_and<T, U, E>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn result_or<T, E, F>(o: Result<T, E>, p: Result<T, F>) -> Result<T, F> { match o { Ok(v) => Ok(v), Err(_) => p } }
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(v) => Ok(v), Err(e) => f(e) } }
pub fn result_as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(v) => Ok(v), Err(e) => Err(e) } }
pub fn result_cloned<T, E>(o: Result<&T, E>) -> Result<T, E> { match o { Ok(v) => Ok(x::clone(v)), Err(e) => Err(e) } }
pub fn result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(v) => { f(&v); Ok(v) } Err(e) => Err(e) } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(v) => f(v), Err(_) => false } }
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn result_iter<T, E>(o: &Result<T, E>) -> OptionIter<&T> { match o { Ok(v) => OptionIter { o: Some(v) }, Err(_) => OptionIter { o: None } } }
pub fn result_map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(v) => f(v), Err(_) => d } }
pub fn result_map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(v) => f(v), Err(e) => d(e) } }
pub fn result_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(v)) => Some(Ok(v)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn ord_is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }

pub struct ChunkBy<'a, T, F> { s: &'a [T], pos: usize, f: F }
impl<'a, T, F: FnMut(&T, &T) -> bool> Iterator for ChunkBy<'a, T, F> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        let n = self.s.len();
        if self.pos >= n { return None; }
        let start = self.pos;
        let mut i = start + 1;
        while i < n {
            if !(self.f)(x::elem(self.s, i - 1), x::elem(self.s, i)) { break; }
            i += 1;
        }
        self.pos = i;
        Some(x::sub(self.s, start, i - start))
    }
}
pub fn chunk_by<'a, T, F: FnMut(&T, &T) -> bool>(s: &'a [T], f: F) -> ChunkBy<'a, T, F> { ChunkBy { s, pos: 0, f } }
pub struct Split<'a, T, F> { s: &'a [T], pos: usize, done: bool, f: F }
impl<'a, T, F: FnMut(&T) -> bool> Iterator for Split<'a, T, F> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.done { return None; }
        let n = self.s.len();
        let start = self.pos;
        let mut i = start;
        while i < n {
            if (self.f)(x::elem(self.s, i)) { self.pos = i + 1; return Some(x::sub(self.s, start, i - start)); }
            i += 1;
        }
        self.done = true;
        Some(x::sub(self.s, start, n - start))
    }
}
pub fn slice_split<'a, T, F: FnMut(&T) -> bool>(s: &'a [T], f: F) -> Split<'a, T, F> { Split { s, pos: 0, done: false, f } }
pub fn slice_is_sorted_by<T, F: FnMut(&T, &T) -> bool>(s: &[T], mut f: F) -> bool {
    let n = s.len();
    let mut i = 1;
    while i < n { if !f(x::elem(s, i - 1), x::elem(s, i)) { return false; } i += 1; }
    true
}
pub fn slice_is_sorted_by_key<T, K, F: FnMut(&T) -> K>(s: &[T], mut f: F) -> bool {
    let n = s.len();
    let mut i = 1;
    while i < n {
        let a = f(x::elem(s, i - 1));
        let b = f(x::elem(s, i));
        if x::cmp(&a, &b) == Ordering::Greater { return false; }
        i += 1;
    }
    true
}
pub fn iter_is_sorted<I: Iterator>(mut it: I) -> bool {
    let mut last = match it.next() { Some(v) => v, None => return true };
    loop {
        match it.next() {
            Some(v) => { if x::cmp(&last, &v) == Ordering::Greater { return false; } last = v; }
            None => return true,
        }
    }
}
pub fn slice_strip_prefix<'a, T>(s: &'a [T], o: &[T]) -> Option<&'a [T]> { if slice_starts_with(s, o) { let k = o.len(); Some(x::sub(s, k, s.len() - k)) } else { None } }
pub fn slice_join_one<T>(s: &[Vec<T>], sep: &T) -> Vec<T> {
    let mut r = Vec::new();
    let n = s.len();
    let mut i = 0;
    while i < n {
        if i > 0 { r.push(x::clone(sep)); }
        let v = x::elem(s, i);
        let k = v.len();
        let mut j = 0;
        while j < k { r.push(x::clone(x::elem(v, j))); j += 1; }
        i += 1;
    }
    r
}
pub fn vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n {
        let mut c = x::take_elem(v, i);
        let k = r.len();
        let same = if k == 0 { false } else { f(&mut c, x::elem_ptr(r.as_mut_slice() as *mut [T], k - 1)) };
        if !same { r.push(c); }
        i += 1;
    }
    *v = r;
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n {
        let mut c = x::take_elem(v, i);
        if f(&mut c) { r.push(c); }
        i += 1;
    }
    *v = r;
}
pub fn vec_pop_if<T, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let n = v.len();
    if n == 0 { return None; }
    if f(x::elem_ptr(v.as_mut_slice() as *mut [T], n - 1)) { v.pop() } else { None }
}
pub fn next_if_eq<I: Iterator>(p: &mut Peekable<I>, w: &I::Item) -> Option<I::Item> { next_if(p, |v| x::eq(v, w)) }
pub fn peek_mut<I: Iterator>(p: &mut Peekable<I>) -> Option<&mut I::Item> {
    if p.p.is_none() { p.p = Some(p.it.next()); }
    match &mut p.p { Some(Some(v)) => Some(v), _ => None }
}
