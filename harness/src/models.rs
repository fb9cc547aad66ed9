//! Rust-level models of std entry points whose real bodies are unsafe code.  A call of the original is
//! replaced by a call of the model with the same generic arguments (dump.cfg), so the generics of each
//! model are those of the original, in order.
use std::alloc::Allocator;
use std::array::IntoIter as ArrayIter;
use std::iter::Zip;
use std::ops::Try;
use std::slice::{Iter, IterMut};
use std::vec::IntoIter;

/// the memory that is reserved from the size hint of an iterator (interpreted by the analyser)
pub fn reserved<I: Iterator>(_i: &I) {}

pub fn m_vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    let i = i.into_iter();
    reserved(&i);
    for x in i {
        v.push(x);
    }
    v
}

pub fn m_vec_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, i: I) {
    let i = i.into_iter();
    reserved(&i);
    for x in i {
        v.push(x);
    }
}

pub fn m_vec_extend_ref<'a, T: Copy + 'a, A: Allocator, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T, A>, i: I) {
    for x in i {
        v.push(*x);
    }
}

pub fn m_vec_retain<T, A: Allocator, F: FnMut(&T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let n = v.len();
    for _ in 0..n {
        let x = v.remove(0);
        if f(&x) {
            v.push(x);
        }
    }
}

pub fn m_vec_retain_mut<T, A: Allocator, F: FnMut(&mut T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let n = v.len();
    for _ in 0..n {
        let mut x = v.remove(0);
        if f(&mut x) {
            v.push(x);
        }
    }
}

pub fn m_vec_dedup_by<T, A: Allocator, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let n = v.len();
    if n == 0 {
        return;
    }
    let mut last = v.remove(0);
    for _ in 1..n {
        let mut x = v.remove(0);
        if !f(&mut x, &mut last) {
            v.push(last);
            last = x;
        }
    }
    v.push(last);
}

pub fn m_vec_resize_with<T, A: Allocator, F: FnMut() -> T>(v: &mut Vec<T, A>, n: usize, mut f: F) {
    if n <= v.len() {
        v.truncate(n);
    } else {
        while v.len() < n {
            v.push(f());
        }
    }
}

pub fn m_iter_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(it: Iter<'a, T>, init: B, mut f: F) -> B {
    let mut acc = init;
    for x in it {
        acc = f(acc, x);
    }
    acc
}

pub fn m_itermut_fold<'a, T, B, F: FnMut(B, &'a mut T) -> B>(it: IterMut<'a, T>, init: B, mut f: F) -> B {
    let mut acc = init;
    for x in it {
        acc = f(acc, x);
    }
    acc
}

pub fn m_iter_rposition<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut n = it.len();
    while let Some(x) = it.next_back() {
        n -= 1;
        if f(x) {
            return Some(n);
        }
    }
    None
}

pub fn m_into_fold<T, A: Allocator, B, F: FnMut(B, T) -> B>(mut it: IntoIter<T, A>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn m_into_try_fold<T, A: Allocator, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(it: &mut IntoIter<T, A>, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}

pub fn m_array_fold<T, const N: usize, B, F: FnMut(B, T) -> B>(mut it: ArrayIter<T, N>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn m_array_try_fold<T, const N: usize, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(it: &mut ArrayIter<T, N>, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}

pub fn zip_a<A, B>(_: &mut Zip<A, B>) -> &mut A {
    unimplemented!()
}

pub fn zip_b<A, B>(_: &mut Zip<A, B>) -> &mut B {
    unimplemented!()
}

pub fn m_zip_next<A: Iterator, B: Iterator>(z: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    let a = zip_a(z).next()?;
    let b = zip_b(z).next()?;
    Some((a, b))
}

pub fn m_zip_fold<A: Iterator, B: Iterator, Acc, F: FnMut(Acc, (A::Item, B::Item)) -> Acc>(mut z: Zip<A, B>, init: Acc, mut f: F) -> Acc {
    let mut acc = init;
    while let Some(x) = m_zip_next(&mut z) {
        acc = f(acc, x);
    }
    acc
}

pub fn vec_array<T, const N: usize>(_: Vec<T>) -> [T; N] {
    unimplemented!()
}

pub fn m_array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    for i in 0..N {
        v.push(f(i));
    }
    vec_array(v)
}

pub fn m_array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut v = Vec::new();
    for x in a {
        v.push(f(x));
    }
    vec_array(v)
}

pub fn m_iter_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn m_iter_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn m_iter_find<'a, T, F: FnMut(&&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> Option<&'a T> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn m_iter_find_map<'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut Iter<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn m_iter_position<'a, T, F: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn m_iter_for_each<'a, T, F: FnMut(&'a T)>(it: Iter<'a, T>, mut f: F) {
    for x in it {
        f(x);
    }
}

pub fn m_itermut_all<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn m_itermut_any<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn m_itermut_find<'a, T, F: FnMut(&&'a mut T) -> bool>(it: &mut IterMut<'a, T>, mut f: F) -> Option<&'a mut T> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn m_itermut_find_map<'a, T, B, F: FnMut(&'a mut T) -> Option<B>>(it: &mut IterMut<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn m_itermut_position<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut IterMut<'a, T>, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn m_itermut_for_each<'a, T, F: FnMut(&'a mut T)>(it: IterMut<'a, T>, mut f: F) {
    for x in it {
        f(x);
    }
}

pub fn m_slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s {
        if y == x {
            return true;
        }
    }
    false
}

fn m_sorted<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], mut less: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && less(&v[j], &v[j - 1]) {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}

pub fn m_sort<T: Ord>(v: &mut [T]) {
    m_sorted(v, |a, b| a < b)
}

pub fn m_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
    m_sorted(v, |a, b| f(a, b) == std::cmp::Ordering::Less)
}

pub fn m_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    m_sorted(v, |a, b| f(a) < f(b))
}

pub fn m_sort_unstable_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
    m_sorted(v, |a, b| f(a) < f(b))
}
