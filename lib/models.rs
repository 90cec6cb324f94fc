// Stand-ins for std combinators, analysed by the interpreter in place of the std bodies.
// Named <type>_<method>; lib/absint.py maps the std path to the stand-in.
#![allow(unused)]

pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn option_unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o { Some(x) => x, None => Default::default() }
}
pub fn option_or<T>(o: Option<T>, d: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => d }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}
pub fn option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None }
}
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => { f(&x); Some(x) } None => None }
}
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}

pub fn result_map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn result_map_err<T, U, E, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
    match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn result_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn result_or_else<T, U, E, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> {
    match o { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn result_map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn result_map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
    match o { Ok(x) => x, Err(_) => d }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o { Ok(x) => x, Err(e) => f(e) }
}
pub fn result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T {
    match o { Ok(x) => x, Err(_) => Default::default() }
}
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> {
    match o { Ok(x) => Some(x), Err(_) => None }
}
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> {
    match o { Ok(_) => None, Err(e) => Some(e) }
}
pub fn result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o { Ok(x) => f(x), Err(_) => false }
}
pub fn result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> {
    match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } }
}

pub struct Map<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { Some(x) => Some((self.f)(x)), None => None }
    }
}
pub struct Filter<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.it.next() {
            if (self.f)(&x) { return Some(x); }
        }
        None
    }
}
pub struct FilterMap<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.it.next() {
            if let Some(y) = (self.f)(x) { return Some(y); }
        }
        None
    }
}
pub struct TakeWhile<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { None }, None => None }
    }
}
pub struct Inspect<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None }
    }
}
pub struct Enumerate<I> { pub it: I, pub n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { Some(x) => { let i = self.n; self.n += 1; Some((i, x)) } None => None }
    }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.first {
            match self.a.next() {
                Some(x) => return Some(x),
                None => { self.first = false; }
            }
        }
        self.b.next()
    }
}

pub struct FlatMap<I, U: IntoIterator, F> { pub it: I, pub f: F, pub cur: Option<U::IntoIter> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() { Some(x) => return Some(x), None => { self.cur = None; } }
            }
            match self.it.next() { Some(x) => { self.cur = Some((self.f)(x).into_iter()); } None => return None }
        }
    }
}
pub struct Flatten<I: Iterator> where I::Item: IntoIterator { pub it: I, pub cur: Option<<I::Item as IntoIterator>::IntoIter> }
impl<I: Iterator> Iterator for Flatten<I> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() { Some(x) => return Some(x), None => { self.cur = None; } }
            }
            match self.it.next() { Some(x) => { self.cur = Some(x.into_iter()); } None => return None }
        }
    }
}

pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn iter_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(mut it: I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) { Ok(_) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn iter_collect_map<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
    let mut v = std::collections::HashMap::new();
    while let Some((a, b)) = it.next() { v.insert(a, b); }
    v
}
pub fn iter_collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn vec_extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() { v.push(x); }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = vec_take(v).into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x); } else { retain_remove(&x); } }
}
pub fn vec_take<T>(v: &mut Vec<T>) -> Vec<T> { std::mem::take(v) }
extern "Rust" { fn retain_removed(); }
pub fn retain_remove<T>(_x: &T) { unsafe { retain_removed() } }

pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

pub fn cmp_max<T: PartialOrd>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn cmp_min<T: PartialOrd>(a: T, b: T) -> T { if b < a { b } else { a } }
