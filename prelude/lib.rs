// Reference definitions of std combinators, compiled to MIR and interpreted in their place.
#![allow(dead_code, unused)]

// ---- iterator consumers
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(_) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn iter_try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        match f(x) {
            Some(_) => {}
            None => return None,
        }
    }
    Some(())
}
pub fn iter_try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(a) => acc = a,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = n;
    while i > 0 {
        match it.next() {
            None => return None,
            Some(_) => {}
        }
        i -= 1;
    }
    it.next()
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn collect_string<I: Iterator<Item = String>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
    v
}

// ---- adapters: one step
pub fn map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(it: &mut I, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn zip_next<I: Iterator, J: Iterator>(a: &mut I, b: &mut J) -> Option<(I::Item, J::Item)> {
    match a.next() {
        None => None,
        Some(x) => match b.next() {
            None => None,
            Some(y) => Some((x, y)),
        },
    }
}
pub fn chain_next<I: Iterator, J: Iterator<Item = I::Item>>(a: &mut I, b: &mut J) -> Option<I::Item> {
    match a.next() {
        Some(x) => Some(x),
        None => b.next(),
    }
}
pub fn enumerate_next<I: Iterator>(it: &mut I, n: &mut usize) -> Option<(usize, I::Item)> {
    match it.next() {
        None => None,
        Some(x) => {
            let i = *n;
            *n = i + 1;
            Some((i, x))
        }
    }
}
pub fn skip_next<I: Iterator>(it: &mut I, n: &mut usize) -> Option<I::Item> {
    while *n > 0 {
        *n -= 1;
        match it.next() {
            None => return None,
            Some(_) => {}
        }
    }
    it.next()
}
pub fn take_next<I: Iterator>(it: &mut I, n: &mut usize) -> Option<I::Item> {
    if *n == 0 {
        return None;
    }
    *n -= 1;
    it.next()
}
pub fn take_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F, done: &mut bool) -> Option<I::Item> {
    if *done {
        return None;
    }
    match it.next() {
        None => None,
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                *done = true;
                None
            }
        }
    }
}
pub fn skip_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F, done: &mut bool) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if *done {
            return Some(x);
        }
        if !f(&x) {
            *done = true;
            return Some(x);
        }
    }
    None
}
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(it: &mut I, f: &mut F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => {
            f(&x);
            Some(x)
        }
    }
}
pub fn flat_map_next<I: Iterator, J: Iterator, U: IntoIterator<IntoIter = J, Item = J::Item>, F: FnMut(I::Item) -> U>(it: &mut I, f: &mut F, cur: &mut Option<J>) -> Option<J::Item> {
    loop {
        if let Some(c) = cur {
            match c.next() {
                Some(y) => return Some(y),
                None => {}
            }
        }
        match it.next() {
            None => return None,
            Some(x) => *cur = Some(f(x).into_iter()),
        }
    }
}
pub fn peekable_next<I: Iterator>(it: &mut I, peeked: &mut Option<Option<I::Item>>) -> Option<I::Item> {
    match peeked.take() {
        Some(v) => v,
        None => it.next(),
    }
}

// ---- Option
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o {
        Some(x) => f(x),
        None => None,
    }
}
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => f(),
    }
}
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => p,
    }
}
pub fn opt_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o {
        Some(_) => p,
        None => None,
    }
}
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o {
        Some(x) => x,
        None => d,
    }
}
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o {
        Some(x) => x,
        None => f(),
    }
}
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o {
        Some(x) => Ok(x),
        None => Err(e),
    }
}
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o {
        Some(x) => Ok(x),
        None => Err(f()),
    }
}
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o {
        Some(x) => f(x),
        None => false,
    }
}
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o {
        Some(x) => f(x),
        None => true,
    }
}
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d,
    }
}
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o {
        Some(x) => f(x),
        None => d(),
    }
}
pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match o {
        Some(x) => match p {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o {
        Some(x) => x,
        None => None,
    }
}
pub fn opt_is_some<T>(o: &Option<T>) -> bool {
    match o {
        Some(_) => true,
        None => false,
    }
}
pub fn opt_is_none<T>(o: &Option<T>) -> bool {
    match o {
        Some(_) => false,
        None => true,
    }
}
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o {
        *o = Some(f());
    }
    match o {
        Some(x) => x,
        None => loop {},
    }
}
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
    match o {
        Some(x) => Some(x),
        None => None,
    }
}

// ---- Result
pub fn res_map<T, U, E, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r {
        Ok(x) => Ok(f(x)),
        Err(e) => Err(e),
    }
}
pub fn res_map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => Err(f(e)),
    }
}
pub fn res_and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r {
        Ok(x) => f(x),
        Err(e) => Err(e),
    }
}
pub fn res_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => f(e),
    }
}
pub fn res_ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(_) => None,
    }
}
pub fn res_err<T, E>(r: Result<T, E>) -> Option<E> {
    match r {
        Ok(_) => None,
        Err(e) => Some(e),
    }
}
pub fn res_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
    match r {
        Ok(x) => x,
        Err(_) => d,
    }
}
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
    match r {
        Ok(x) => x,
        Err(e) => f(e),
    }
}
pub fn res_is_ok<T, E>(r: &Result<T, E>) -> bool {
    match r {
        Ok(_) => true,
        Err(_) => false,
    }
}
pub fn res_is_err<T, E>(r: &Result<T, E>) -> bool {
    match r {
        Ok(_) => false,
        Err(_) => true,
    }
}
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
    match r {
        Ok(x) => f(x),
        Err(_) => d,
    }
}
pub fn res_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
    match r {
        Ok(x) => f(x),
        Err(e) => d(e),
    }
}
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool {
    match r {
        Ok(x) => f(x),
        Err(_) => false,
    }
}

// ---- bool
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b {
        Some(f())
    } else {
        None
    }
}
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> {
    if b {
        Some(x)
    } else {
        None
    }
}

// ---- Vec
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut old = Vec::new();
    std::mem::swap(&mut old, v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn slice_contains<T: PartialEq>(v: &[T], x: &T) -> bool {
    let mut it = v.iter();
    while let Some(y) = it.next() {
        if y == x {
            return true;
        }
    }
    false
}

// ---- further adapters: one step
pub fn scan_next<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>>(it: &mut I, state: &mut S, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => f(state, x),
        None => None,
    }
}
pub fn map_while_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => f(x),
        None => None,
    }
}
pub fn step_by_next<I: Iterator>(it: &mut I, n: &mut usize, first: &mut bool) -> Option<I::Item> {
    if *first {
        *first = false;
        return it.next();
    }
    let mut i = *n - 1;
    while i > 0 {
        match it.next() {
            None => return None,
            Some(_) => {}
        }
        i -= 1;
    }
    it.next()
}
pub fn cycle_next<I: Iterator + Clone>(orig: &mut I, cur: &mut I) -> Option<I::Item> {
    match cur.next() {
        Some(x) => Some(x),
        None => {
            *cur = orig.clone();
            cur.next()
        }
    }
}
pub fn successors_next<T, F: FnMut(&T) -> Option<T>>(cur: &mut Option<T>, f: &mut F) -> Option<T> {
    match cur.take() {
        None => None,
        Some(x) => {
            *cur = f(&x);
            Some(x)
        }
    }
}
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(f: &mut F) -> Option<T> {
    f()
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => {
            let mut acc = x;
            while let Some(y) = it.next() {
                acc = f(acc, y);
            }
            Some(acc)
        }
    }
}
pub fn iter_try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Some(a) => acc = a,
            None => return None,
        }
    }
    Some(acc)
}
pub fn opt_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o {
        Some(x) => match p {
            Some(_) => None,
            None => Some(x),
        },
        None => p,
    }
}
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    match o {
        Some(x) => {
            f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o {
        Some(r) => match r {
            Ok(x) => Ok(Some(x)),
            Err(e) => Err(e),
        },
        None => Ok(None),
    }
}
pub fn opt_unzip<T, U>(o: Option<(T, U)>) -> (Option<T>, Option<U>) {
    match o {
        Some(p) => (Some(p.0), Some(p.1)),
        None => (None, None),
    }
}
pub fn res_or<T, E, G>(r: Result<T, E>, p: Result<T, G>) -> Result<T, G> {
    match r {
        Ok(x) => Ok(x),
        Err(_) => p,
    }
}
pub fn res_and<T, U, E>(r: Result<T, E>, p: Result<U, E>) -> Result<U, E> {
    match r {
        Ok(_) => p,
        Err(e) => Err(e),
    }
}
pub fn res_inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> {
    match r {
        Ok(x) => {
            f(&x);
            Ok(x)
        }
        Err(e) => Err(e),
    }
}
pub fn res_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => {
            f(&e);
            Err(e)
        }
    }
}
pub fn res_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match r {
        Ok(o) => match o {
            Some(x) => Some(Ok(x)),
            None => None,
        },
        Err(e) => Some(Err(e)),
    }
}
pub fn res_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => f(e),
    }
}
pub fn res_flatten<T, E>(r: Result<Result<T, E>, E>) -> Result<T, E> {
    match r {
        Ok(x) => x,
        Err(e) => Err(e),
    }
}
