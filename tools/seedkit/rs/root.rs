// The library's Rust modules with stand-ins for the crates they use.
#![allow(warnings)]
extern crate self as sha2;
extern crate self as rand;
extern crate self as rayon;
extern crate self as crossbeam_channel;
extern crate self as pqcrypto_dilithium;
extern crate self as pqcrypto_kyber;
extern crate self as pqcrypto_traits;
pub mod rust_wrapper;
pub mod pq;
pub use pq::dilithium5; pub use pq::kyber768; pub use pq::sign; pub use pq::kem; pub use pq::{Error};
use std::cell::RefCell; use std::collections::VecDeque; use std::rc::Rc;
// rayon::ThreadPool::install blocks until the closure has run; channels of one slot
pub struct ThreadPool; pub struct ThreadPoolBuilder; #[derive(Debug)] pub struct ThreadPoolBuildError;
impl ThreadPoolBuilder { pub fn new() -> Self { ThreadPoolBuilder } pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) } }
impl ThreadPool { pub fn install<R, F: FnOnce() -> R>(&self, f: F) -> R { f() } }
pub struct Sender<T> { q: Rc<RefCell<VecDeque<T>>> } pub struct Receiver<T> { q: Rc<RefCell<VecDeque<T>>> }
pub fn bounded<T>(_n: usize) -> (Sender<T>, Receiver<T>) { let q = Rc::new(RefCell::new(VecDeque::new())); (Sender { q: q.clone() }, Receiver { q }) }
impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), &'static str> { self.q.borrow_mut().push_back(t); Ok(()) } }
impl<T> Receiver<T> { pub fn recv(&self) -> Result<T, &'static str> { self.q.borrow_mut().pop_front().ok_or("empty") } pub fn is_full(&self) -> bool { self.q.borrow().len() > 0 } }
pub struct Sha256 { b: Vec<u8> }
pub trait Digest: Sized { fn new() -> Self; fn update(&mut self, d: impl AsRef<[u8]>); fn finalize(self) -> Out; fn digest(d: impl AsRef<[u8]>) -> Out { let mut h = Self::new(); h.update(d); h.finalize() } }
pub struct Out(pub [u8; 32]);
impl Out { pub fn as_slice(&self) -> &[u8] { &self.0 } pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() } }
impl std::ops::Deref for Out { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Out { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Out> for Vec<u8> { fn from(o: Out) -> Vec<u8> { o.0.to_vec() } }

fn sha256(m: &[u8]) -> [u8; 32] {
    fn root(p: u64, n: u32) -> u32 { let mut r: u128 = 0; for b in (0..40).rev() { let t = r | 1u128 << b; let mut x = t; for _ in 1..n { x *= t; } if x <= (p as u128) << (32 * n) { r = t; } } r as u32 }
    let mut pr = vec![]; let mut c = 2u64; while pr.len() < 64 { if (2..c).all(|d| c % d != 0) { pr.push(c); } c += 1; }
    let k: Vec<u32> = pr.iter().map(|p| root(*p, 3)).collect(); let mut h: Vec<u32> = pr[..8].iter().map(|p| root(*p, 2)).collect();
    let mut d = m.to_vec(); d.push(0x80); while d.len() % 64 != 56 { d.push(0); } d.extend(((m.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
        for i in 16..64 { let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3; let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10; w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1)); }
        let mut v = h.clone();
        for i in 0..64 { let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25); let ch = v[4] & v[5] ^ !v[4] & v[6]; let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]); let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22); let mj = v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]; v.insert(0, t1.wrapping_add(s0.wrapping_add(mj))); v.pop(); v[4] = v[4].wrapping_add(t1); }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut o = [0u8; 32]; for i in 0..8 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); } o
}
impl Digest for Sha256 { fn new() -> Self { Sha256 { b: Vec::new() } } fn update(&mut self, d: impl AsRef<[u8]>) { self.b.extend_from_slice(d.as_ref()) } fn finalize(self) -> Out { Out(sha256(&self.b)) } }
pub mod rngs { pub struct OsRng; }
pub trait RngCore { fn fill_bytes(&mut self, d: &mut [u8]); }
impl RngCore for rngs::OsRng { fn fill_bytes(&mut self, d: &mut [u8]) { for (i, x) in d.iter_mut().enumerate() { *x = (i * 7 + 1) as u8; } } }
