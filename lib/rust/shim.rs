use std::cell::RefCell; use std::collections::VecDeque; use std::rc::Rc; use std::marker::PhantomData;
pub fn hex2<T: Copy + Into<u64>>(v: &T) -> String {
    let x: u64 = (*v).into(); let mut s = String::new();
    let d = |n: u64| -> u8 { let n = (n & 15) as u8; if n < 10 { b'0' + n } else { b'a' + n - 10 } };
    unsafe { s.as_mut_vec().push(d(x >> 4)); s.as_mut_vec().push(d(x)); } s
}
// std::collections::HashMap for the modules under check: an association list with text keys.  Symbolic side: looking up
// symbolic text does not branch per entry, and a dictionary word with a symbolic index is a token (see Words).
pub trait Num: Copy + 'static { fn to(self) -> u64; fn from(x: u64) -> Self; }
macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn to(self) -> u64 { self as u64 } fn from(x: u64) -> Self { x as $t } })* } }
num!(u8 u16 u32 u64 usize i16 i32 i64 isize);
extern "C" { fn rs_concretize(x: u64) -> u64; }
pub struct HashMap<K, V> { e: Vec<(K, V)>, hs: Vec<u32> }
impl<K: AsRef<str>, V: Num + 'static> HashMap<K, V> {
    pub fn new() -> Self { HashMap { e: Vec::new(), hs: vec![0u32; 16384] } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.e.len() }
    fn fnv(s: &[u8]) -> usize { let mut h = 2166136261u32; for b in s { h = (h ^ *b as u32).wrapping_mul(16777619); } (h & 16383) as usize }
    fn cfind(&self, k: &[u8]) -> (usize, u32) { let mut h = Self::fnv(k); while self.hs[h] != 0 { if self.e[self.hs[h] as usize - 1].0.as_ref().as_bytes() == k { return (h, self.hs[h]); } h = (h + 1) & 16383; } (h, 0) }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let (h, i) = self.cfind(k.as_ref().as_bytes()); if i != 0 { return Some(std::mem::replace(&mut self.e[i as usize - 1].1, v)); }
        if self.e.len() == self.e.capacity() { let mut n = Vec::with_capacity(self.e.len() + 4200); n.append(&mut self.e); self.e = n; }
        self.e.push((k, v)); self.hs[h] = self.e.len() as u32; None
    }
    fn leak(x: u64) -> &'static V { Box::leak(Box::new(V::from(x))) }
    #[inline(never)]
    pub fn get<Q: ?Sized + AsRef<str>>(&self, q: &Q) -> Option<&V> {
        let k = q.as_ref().as_bytes();
        if k.len() == 4 && k[0] == MARK {
            let id = (k[1] as u64 & 15) | (k[2] as u64 & 15) << 4 | (k[3] as u64 & 15) << 8;
            let words = crate::rust_wrapper::qrl::wordlist::REAL_WORDLIST;
            let (mut ok, mut c) = (true, 0u64);
            for (i, w) in words.iter().enumerate() { let (_, j) = self.cfind(w.as_bytes()); if j == 0 { ok = false; break; } let d = self.e[j as usize - 1].1.to().wrapping_sub(i as u64); if i == 0 { c = d; } else if c != d { ok = false; break; } }
            if ok { return Some(Self::leak(id.wrapping_add(c))); }
            let id = unsafe { rs_concretize(id) }; let (_, j) = self.cfind(words[id as usize].as_bytes()); return if j == 0 { None } else { Some(&self.e[j as usize - 1].1) };
        }
        for b in k { if *b == MARK { return None; } }
        let mut hit = 0u32; let mut val = 0u64;
        for (i, e) in self.e.iter().enumerate() { let w = e.0.as_ref().as_bytes(); if w.len() != k.len() { continue; } let mut d = 0u8; for j in 0..k.len() { d |= w[j] ^ k[j]; } let m = 0u32.wrapping_sub((d == 0) as u32); hit |= m & (i as u32 + 1); val |= (m as i32 as i64 as u64) & e.1.to(); }
        if hit == 0 { None } else { Some(Self::leak(val)) }
    }
    pub fn contains_key<Q: ?Sized + AsRef<str>>(&self, k: &Q) -> bool { self.get(k).is_some() }
}
// The dictionary on the symbolic side: indexing yields the token MARK, then the three index nibbles (low first) in the low halves of
// bytes 0x40..0x4f, so a symbolic index stays symbolic; everything else sees the real words.
pub const MARK: u8 = 1;
#[derive(Clone, Copy)] pub struct Words;
impl std::ops::Index<usize> for Words { type Output = &'static str; fn index(&self, i: usize) -> &&'static str { if i >= crate::rust_wrapper::qrl::wordlist::REAL_WORDLIST.len() { panic!() } let b: &'static mut [u8; 4] = Box::leak(Box::new([MARK, 0x40 | (i & 15) as u8, 0x40 | (i >> 4 & 15) as u8, 0x40 | (i >> 8 & 15) as u8])); Box::leak(Box::new(unsafe { std::str::from_utf8_unchecked(&b[..]) })) } }
impl std::ops::Deref for Words { type Target = [&'static str]; fn deref(&self) -> &[&'static str] { crate::rust_wrapper::qrl::wordlist::REAL_WORDLIST } }
impl IntoIterator for Words { type Item = &'static &'static str; type IntoIter = std::slice::Iter<'static, &'static str>; fn into_iter(self) -> Self::IntoIter { crate::rust_wrapper::qrl::wordlist::REAL_WORDLIST.iter() } }
impl<'a> IntoIterator for &'a Words { type Item = &'static &'static str; type IntoIter = std::slice::Iter<'static, &'static str>; fn into_iter(self) -> Self::IntoIter { crate::rust_wrapper::qrl::wordlist::REAL_WORDLIST.iter() } }
// rayon::ThreadPool::install blocks until the closure has run; channels of one slot
pub struct ThreadPool; pub struct ThreadPoolBuilder; #[derive(Debug)] pub struct ThreadPoolBuildError;
impl ThreadPoolBuilder { pub fn new() -> Self { ThreadPoolBuilder } pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) } }
impl ThreadPool { pub fn install<R, F: FnOnce() -> R>(&self, f: F) -> R { f() } }
pub struct Sender<T> { q: Rc<RefCell<VecDeque<T>>> } pub struct Receiver<T> { q: Rc<RefCell<VecDeque<T>>> }
pub fn bounded<T>(_n: usize) -> (Sender<T>, Receiver<T>) { let q = Rc::new(RefCell::new(VecDeque::new())); (Sender { q: q.clone() }, Receiver { q }) }
impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), &'static str> { self.q.borrow_mut().push_back(t); Ok(()) } }
impl<T> Receiver<T> { pub fn recv(&self) -> Result<T, &'static str> { self.q.borrow_mut().pop_front().ok_or("empty") } pub fn is_full(&self) -> bool { self.q.borrow().len() > 0 } }
// decimal text of an integer (core::fmt::num on the symbolic side)
#[no_mangle] pub fn rsm_decimal(n: u64, b: &mut [u8]) -> &str {
    let mut n = n; let mut k = b.len();
    loop { k -= 1; b[k] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } }
    unsafe { std::str::from_utf8_unchecked(&b[k..]) }
}
