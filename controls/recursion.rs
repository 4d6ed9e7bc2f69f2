//! Positive examples for the rules of C20: each function or type named r_* must be reported,
//! none named ok_* may be.
pub fn r_direct(v: &[u32]) -> u32 {
    if v.is_empty() { 0 } else { v[0] + r_direct(&v[1..]) }
}
pub fn r_closure(v: &[u32]) -> u32 {
    v.first().map(|x| *x + r_closure(&v[1..])).unwrap_or(0)
}
pub trait Walk { fn walk(&self, v: &[u32]) -> u32; }
pub struct P;
impl Walk for P { fn walk(&self, v: &[u32]) -> u32 { r_generic(self, v) } }
pub fn r_generic<T: Walk>(t: &T, v: &[u32]) -> u32 {
    if v.is_empty() { 0 } else { t.walk(&v[1..]) }
}
pub struct RChain { pub next: Option<Box<RChain>> }
pub struct OkFlat { pub all: Vec<Option<Box<u32>>> }
pub fn ok_map(v: &[u32]) -> u32 {
    v.first().map(|x| ok_inner(Some(*x))).unwrap_or(0)
}
pub fn ok_inner(v: Option<u32>) -> u32 {
    v.map(|x| x + 1).unwrap_or(0)
}
pub struct It<'a> { pub it: std::slice::Iter<'a, u32> }
impl<'a> Iterator for It<'a> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { self.it.next().copied() }
}
pub struct RIt<'a> { pub it: std::slice::Iter<'a, u32> }
impl<'a> Iterator for RIt<'a> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        match self.it.next() { Some(0) => self.next(), Some(x) => Some(*x), None => None }
    }
}
