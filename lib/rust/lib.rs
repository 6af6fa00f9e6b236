// Crate root for checking /repo's Rust library: its module tree (copied beside this file, see checks/rustbuild.py),
// stand-ins for the third-party crates it uses, and a C interface for the harnesses.
#![allow(warnings)]
extern crate self as sha2;
extern crate self as rand;
extern crate self as rayon;
extern crate self as crossbeam_channel;
extern crate self as pqcrypto_dilithium;
extern crate self as pqcrypto_kyber;
extern crate self as pqcrypto_traits;
// text formatting: only "{:02x}" carries meaning (checked by the build script); error texts are left empty
macro_rules! format { ("{:02x}", $v:expr) => { crate::shim::hex2($v) }; ($($t:tt)*) => { { String::new() } } }
macro_rules! eprintln { ($($t:tt)*) => { () } }
macro_rules! println { ($($t:tt)*) => { () } }
pub mod shim;
pub mod ffi;
pub mod leafmodel;
pub mod rust_wrapper;
#[path = "pq.rs"] pub mod pq;
pub use pq::dilithium5; pub use pq::kyber768; pub use pq::sign; pub use pq::kem; pub use pq::{Error};
pub use shim::{bounded, Receiver, Sender, ThreadPool, ThreadPoolBuilder, ThreadPoolBuildError};
// sha2
extern "C" { fn rs_sha256(out: *mut u8, input: *const u8, n: usize); fn rs_random(out: *mut u8, n: usize); }
pub struct Sha256 { b: Vec<u8> }
pub trait Digest: Sized { fn new() -> Self; fn update(&mut self, d: impl AsRef<[u8]>); fn finalize(self) -> Out; fn digest(d: impl AsRef<[u8]>) -> Out { let mut h = Self::new(); h.update(d); h.finalize() } }
pub struct Out(pub [u8; 32]);
impl Out { pub fn as_slice(&self) -> &[u8] { &self.0 } pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() } }
impl std::ops::Deref for Out { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Out { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Out> for Vec<u8> { fn from(o: Out) -> Vec<u8> { o.0.to_vec() } }
impl Digest for Sha256 {
    fn new() -> Self { Sha256 { b: Vec::new() } }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.b.extend_from_slice(d.as_ref()) }
    fn finalize(self) -> Out { let mut o = [0u8; 32]; unsafe { rs_sha256(o.as_mut_ptr(), self.b.as_ptr(), self.b.len()) }; Out(o) }
}
// rand
pub mod rngs { pub struct OsRng; }
pub trait RngCore { fn fill_bytes(&mut self, d: &mut [u8]); }
impl RngCore for rngs::OsRng { fn fill_bytes(&mut self, d: &mut [u8]) { unsafe { rs_random(d.as_mut_ptr(), d.len()) } } }
