//! Models of library functions whose own MIR is specialised or unsafe: the same meaning written with `next`.
#![allow(dead_code, clippy::all)]
use std::ops::{ControlFlow, Try};

pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = it.next()?;
    while let Some(x) = it.next() { acc = f(acc, x); }
    Some(acc)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut i = 0; while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; } None }
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut i = 0; while i < n { it.next()?; i += 1; } it.next() }
pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { let mut m = it.next()?; while let Some(x) = it.next() { if x >= m { m = x; } } Some(m) }
pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { let mut m = it.next()?; while let Some(x) = it.next() { if x < m { m = x; } } Some(m) }
pub fn iter_eq<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> bool where A::Item: PartialEq<B::Item> {
    let mut b = b.into_iter();
    loop { match (a.next(), b.next()) { (None, None) => return true, (Some(x), Some(y)) => if x != y { return false; }, _ => return false } }
}
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x).branch() { ControlFlow::Continue(c) => acc = c, ControlFlow::Break(b) => return R::from_residual(b) } }
    R::from_output(acc)
}
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() { match f(x).branch() { ControlFlow::Continue(_) => {}, ControlFlow::Break(b) => return R::from_residual(b) } }
    R::from_output(())
}
pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next_back() { acc = f(acc, x); } acc }
pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut i = 0; while i < n { it.next_back()?; i += 1; } it.next_back() }
pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> { while let Some(x) = it.next_back() { if f(&x) { return Some(x); } } None }

pub fn zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> (A, U::IntoIter) { (a, b.into_iter()) }
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut (A, B)) -> Option<(A::Item, B::Item)> { let x = z.0.next()?; let y = z.1.next()?; Some((x, y)) }
pub fn zip_next_back<A: DoubleEndedIterator + ExactSizeIterator, B: DoubleEndedIterator + ExactSizeIterator>(z: &mut (A, B)) -> Option<(A::Item, B::Item)> {
    while z.0.len() > z.1.len() { z.0.next_back(); }
    while z.1.len() > z.0.len() { z.1.next_back(); }
    let x = z.0.next_back()?;
    let y = z.1.next_back()?;
    Some((x, y))
}
pub fn zip_len<A: ExactSizeIterator, B: ExactSizeIterator>(z: &(A, B)) -> usize { let (a, b) = (z.0.len(), z.1.len()); if a < b { a } else { b } }
pub fn zip_size_hint<A: ExactSizeIterator, B: ExactSizeIterator>(z: &(A, B)) -> (usize, Option<usize>) { let n = zip_len(z); (n, Some(n)) }

pub fn step_by<I: Iterator>(it: I, step: usize) -> (I, usize, bool) { assert!(step != 0); (it, step - 1, true) }
pub fn step_by_next<I: Iterator>(s: &mut (I, usize, bool)) -> Option<I::Item> { if s.2 { s.2 = false; s.0.next() } else { let n = s.1; s.0.nth(n) } }
pub fn step_by_len<I: ExactSizeIterator>(s: &(I, usize, bool)) -> usize {
    let n = s.0.len();
    if s.2 { if n == 0 { 0 } else { 1 + (n - 1) / (s.1 + 1) } } else { n / (s.1 + 1) }
}
pub fn step_by_next_back<I: DoubleEndedIterator + ExactSizeIterator>(s: &mut (I, usize, bool)) -> Option<I::Item> {
    let rem = s.0.len() % (s.1 + 1);
    let n = if s.2 { if rem == 0 { s.1 } else { rem - 1 } } else { rem };
    s.0.nth_back(n)
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { let mut v = Vec::new(); let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(x); } v }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn vec_extend_ref<T: Copy, R: std::ops::Deref<Target = T>, I: IntoIterator<Item = R>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(*x); } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut out = Vec::new();
    let old = std::mem::take(v);
    for x in old { if f(&x) { out.push(x); } }
    *v = out;
}
/// done at once; the result has the layout of Splice { drain, replace_with }
pub fn vec_splice<T, R: std::ops::RangeBounds<usize>, I: IntoIterator<Item = T>>(v: &mut Vec<T>, r: R, i: I) -> (std::vec::IntoIter<T>, ()) {
    use std::ops::Bound::*;
    let a = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + 1, Unbounded => 0 };
    let b = match r.end_bound() { Included(x) => *x + 1, Excluded(x) => *x, Unbounded => v.len() };
    assert!(a <= b && b <= v.len());
    let mut removed = v.split_off(a);
    let mut tail = removed.split_off(b - a);
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x); }
    v.append(&mut tail);
    (removed.into_iter(), ())
}
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) { if n < v.len() { v.truncate(n) } else { while v.len() < n { v.push(f()); } } }
pub fn rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut i = it.len(); while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } } None }
pub fn fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) { let mut i = 0; while i < s.len() { s[i] = f(); i += 1; } }

/// marker: the analyser turns the vector into an array
pub fn mk_array<T, const N: usize>(_v: Vec<T>) -> [T; N] { unimplemented!() }
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] { let mut v = Vec::new(); let mut i = 0; while i < N { v.push(f(i)); i += 1; } mk_array::<T, N>(v) }
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] { let mut v = Vec::new(); for x in a { v.push(f(x)); } mk_array::<U, N>(v) }
