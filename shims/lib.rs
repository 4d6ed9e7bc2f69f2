//! Reference bodies for std iterator consumers. std implements them with
//! try_fold and pointer tricks; the analysis reads these plain loops instead.
//! `Iterator__find` stands for `Iterator::find`, with the same type parameters.
#![allow(non_snake_case)]

pub fn Iterator__position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn Iterator__find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn Iterator__sum<I: Iterator, S: Default + std::ops::Add<I::Item, Output = S>>(mut it: I) -> S {
    let mut r = S::default();
    while let Some(x) = it.next() {
        r = r + x;
    }
    r
}

pub fn Iterator__count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}

pub fn Iterator__max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if x >= r {
            r = x;
        }
    }
    Some(r)
}

pub fn Iterator__min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if x < r {
            r = x;
        }
    }
    Some(r)
}

pub fn DoubleEndedIterator__rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(
    it: &mut I,
    mut f: P,
) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn Iterator__rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(
    it: &mut I,
    mut f: P,
) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) {
            return Some(i);
        }
    }
    None
}

pub fn slice__contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s {
        if *y == *x {
            return true;
        }
    }
    false
}

pub fn VecFrom__from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}

pub fn VecExtend__extend<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, it: I) {
    for x in it {
        v.push(x);
    }
}
