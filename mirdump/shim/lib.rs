//! The documented meaning of std's collecting functions, written as plain loops.  The standard library's own bodies reach
//! the same result through unsafe specialisations; the verifier runs these instead (listed as an assumption in the evidence).
pub fn vec_collect<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn string_collect_char<I: Iterator<Item = char>>(it: I) -> String {
    let mut it = it;
    let mut v = String::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn string_collect_str<'a, I: Iterator<Item = &'a str>>(it: I) -> String {
    let mut it = it;
    let mut v = String::new();
    while let Some(x) = it.next() { v.push_str(x); }
    v
}
pub fn string_collect_string<I: Iterator<Item = String>>(it: I) -> String {
    let mut it = it;
    let mut v = String::new();
    while let Some(x) = it.next() { v.push_str(&x); }
    v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn string_extend_char<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn string_extend_str<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push_str(x); }
}
pub fn option_collect<T, I: Iterator<Item = Option<T>>>(it: I) -> Option<Vec<T>> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Some(x) => v.push(x), None => return None }
    }
    Some(v)
}
pub fn result_collect<T, E, I: Iterator<Item = Result<T, E>>>(it: I) -> Result<Vec<T>, E> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(x) => v.push(x), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    loop {
        match it.next() {
            None => return None,
            Some(x) => { if n == 0 { return Some(x); } n -= 1; }
        }
    }
}
// the same, each adaptor driving the loop (an adaptor that drops elements keeps its place in the source this way)
pub fn vec_collect_each<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    it.for_each(|x| v.push(x));
    v
}
pub fn vec_extend_each<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    it.into_iter().for_each(|x| v.push(x));
}
// a bit vector (bitvec's push and new stand behind the hooks)
pub fn hook_push<C>(_v: &mut C, _x: bool) { unimplemented!() }
pub fn hook_new<C>() -> C { unimplemented!() }
pub fn bits_extend<C, I: IntoIterator<Item = bool>>(v: &mut C, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { hook_push(v, x); }
}
pub fn bits_collect<C, I: Iterator<Item = bool>>(it: I) -> C {
    let mut it = it;
    let mut v = hook_new();
    while let Some(x) = it.next() { hook_push(&mut v, x); }
    v
}
