//! Analysis models of std functions.
use crate::v;
use std::ops::{ControlFlow, FromResidual, Try};

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut r = Vec::new();
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => r.push(x),
            None => return r,
        }
    }
}

pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(r: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => r.push(x),
            None => return,
        }
    }
}

pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut it = s.iter();
    loop {
        match it.next() {
            Some(y) => {
                if y == x {
                    return true;
                }
            }
            None => return false,
        }
    }
}

pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(r: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(r).into_iter();
    loop {
        match it.next() {
            Some(x) => {
                if f(&x) {
                    r.push(x)
                }
            }
            None => return,
        }
    }
}

pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => match f(acc, x).branch() {
                ControlFlow::Continue(b) => acc = b,
                ControlFlow::Break(r) => return R::from_residual(r),
            },
            None => return R::from_output(acc),
        }
    }
}

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => acc = f(acc, x),
            None => return acc,
        }
    }
}

pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop {
        match it.next() {
            Some(x) => f(x),
            None => return,
        }
    }
}

pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if !f(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}

pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if f(x) {
                    return true;
                }
            }
            None => return false,
        }
    }
}

pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    loop {
        match it.next() {
            Some(x) => {
                if p(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}

pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop {
        match it.next() {
            Some(x) => {
                if let Some(b) = f(x) {
                    return Some(b);
                }
            }
            None => return None,
        }
    }
}

pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut n = 0usize;
    loop {
        match it.next() {
            Some(x) => {
                if p(x) {
                    return Some(n);
                }
                n += 1;
            }
            None => return None,
        }
    }
}

pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    loop {
        match it.next() {
            Some(_) => n += 1,
            None => return n,
        }
    }
}

pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut n = None;
    loop {
        match it.next() {
            Some(x) => n = Some(x),
            None => return n,
        }
    }
}

pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while i < n {
        if it.next().is_none() {
            return None;
        }
        i += 1;
    }
    it.next()
}
