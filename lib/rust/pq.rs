// pqcrypto stand-ins: fixed-size byte holders, primitives are the same oracles as on the C++ side (lib/pq_model.cpp)
#[derive(Debug)] pub enum Error { BadLength { name: &'static str, actual: usize, expected: usize } }
pub type Result<T> = std::result::Result<T, Error>;
macro_rules! holder { ($t:ident, $tr:path, $n:expr, $nm:expr) => {
    #[derive(Clone, Copy)] pub struct $t(pub [u8; $n]);
    impl $tr for $t { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> crate::pq::Result<Self> { if b.len() != $n { Err(crate::pq::Error::BadLength { name: $nm, actual: b.len(), expected: $n }) } else { let mut a = [0u8; $n]; a.copy_from_slice(b); Ok($t(a)) } } }
} }
pub mod sign {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SignedMessage { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    #[derive(Debug)] pub enum VerificationError { InvalidSignature, UnknownVerificationError }
}
pub mod kem {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait Ciphertext { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SharedSecret { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
}
extern "C" {
    fn rs_dil_keypair(pk: *mut u8, sk: *mut u8); fn rs_dil_sign(out: *mut u8, m: *const u8, n: usize, sk: *const u8); fn rs_dil_open(m: *mut u8, s: *const u8, n: usize, pk: *const u8) -> i32;
    fn rs_kem_keypair(pk: *mut u8, sk: *mut u8); fn rs_kem_enc(ss: *mut u8, ct: *mut u8, pk: *const u8); fn rs_kem_dec(ss: *mut u8, ct: *const u8, sk: *const u8);
}
pub mod dilithium5 {
    use super::sign as t;
    pub const fn public_key_bytes() -> usize { 2592 } pub const fn secret_key_bytes() -> usize { 4864 } pub const fn signature_bytes() -> usize { 4595 }
    holder!(PublicKey, t::PublicKey, 2592, "PublicKey"); holder!(SecretKey, t::SecretKey, 4864, "SecretKey");
    #[derive(Clone)] pub struct SignedMessage(pub Vec<u8>);
    impl t::SignedMessage for SignedMessage { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> super::Result<Self> { Ok(SignedMessage(b.to_vec())) } }
    impl SignedMessage { pub fn len(&self) -> usize { self.0.len() } }
    pub fn keypair() -> (PublicKey, SecretKey) { let mut p = PublicKey([0; 2592]); let mut s = SecretKey([0; 4864]); unsafe { super::rs_dil_keypair(p.0.as_mut_ptr(), s.0.as_mut_ptr()) }; (p, s) }
    pub fn sign(m: &[u8], sk: &SecretKey) -> SignedMessage { let mut v = vec![0u8; 4595 + m.len()]; unsafe { super::rs_dil_sign(v.as_mut_ptr(), m.as_ptr(), m.len(), sk.0.as_ptr()) }; SignedMessage(v) }
    pub fn open(s: &SignedMessage, pk: &PublicKey) -> std::result::Result<Vec<u8>, t::VerificationError> { if s.0.len() < 4595 { return Err(t::VerificationError::InvalidSignature); } let mut m = vec![0u8; s.0.len() - 4595]; if unsafe { super::rs_dil_open(m.as_mut_ptr(), s.0.as_ptr(), s.0.len(), pk.0.as_ptr()) } == 0 { Ok(m) } else { Err(t::VerificationError::InvalidSignature) } }
}
pub mod kyber768 {
    use super::kem as t;
    pub const fn public_key_bytes() -> usize { 1184 } pub const fn secret_key_bytes() -> usize { 2400 } pub const fn ciphertext_bytes() -> usize { 1088 } pub const fn shared_secret_bytes() -> usize { 32 }
    holder!(PublicKey, t::PublicKey, 1184, "PublicKey"); holder!(SecretKey, t::SecretKey, 2400, "SecretKey"); holder!(Ciphertext, t::Ciphertext, 1088, "Ciphertext"); holder!(SharedSecret, t::SharedSecret, 32, "SharedSecret");
    pub fn keypair() -> (PublicKey, SecretKey) { let mut p = PublicKey([0; 1184]); let mut s = SecretKey([0; 2400]); unsafe { super::rs_kem_keypair(p.0.as_mut_ptr(), s.0.as_mut_ptr()) }; (p, s) }
    pub fn encapsulate(pk: &PublicKey) -> (SharedSecret, Ciphertext) { let mut s = SharedSecret([0; 32]); let mut c = Ciphertext([0; 1088]); unsafe { super::rs_kem_enc(s.0.as_mut_ptr(), c.0.as_mut_ptr(), pk.0.as_ptr()) }; (s, c) }
    pub fn decapsulate(ct: &Ciphertext, sk: &SecretKey) -> SharedSecret { let mut s = SharedSecret([0; 32]); unsafe { super::rs_kem_dec(s.0.as_mut_ptr(), ct.0.as_ptr(), sk.0.as_ptr()) }; s }
}
