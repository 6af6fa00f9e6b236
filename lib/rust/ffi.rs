// C interface used by the harnesses
use crate::rust_wrapper::qrl::*; use crate::rust_wrapper::xmss_alt::*; use crate::rust_wrapper::errors::QRLError;
use hash_functions::HashFunction; use qrl_address_format::AddrFormatType; use qrl_descriptor::{QRLDescriptor, SignatureType};
use xmss_base::{Sign, XMSSBase, XMSSBaseTrait}; use xmss_basic::XMSSBasic; use xmss_fast::XMSSFast; use wots::WOTSParams;
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
unsafe fn sm<'a>(p: *mut u8, n: usize) -> &'a mut [u8] { if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p, n) } }
unsafe fn put(out: *mut u8, v: &[u8]) -> i64 { std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len()); v.len() as i64 }
fn hf(x: u32) -> HashFunction { match x { 0 => HashFunction::SHA2_256, 1 => HashFunction::Shake128, _ => HashFunction::Shake256 } }
#[no_mangle] pub unsafe extern "C" fn rs_shake128(out: *mut u8, ol: usize, i: *const u8, il: usize) { fips202::shake128(sm(out, ol), ol, sl(i, il), il as u64) }
#[no_mangle] pub unsafe extern "C" fn rs_shake256(out: *mut u8, ol: usize, i: *const u8, il: usize) { fips202::shake256(sm(out, ol), ol, sl(i, il), il as u64) }
// keyed hash functions
unsafe fn ad<'a>(a: *mut u32) -> &'a mut [u32; 8] { &mut *(a as *mut [u32; 8]) }
#[no_mangle] pub unsafe extern "C" fn rs_core_hash(h: u32, out: *mut u8, t: u32, key: *const u8, kl: u32, i: *const u8, il: u32, n: u32) -> u32 { hash::core_hash(&hf(h), sm(out, 64), t, sl(key, kl as usize), kl, sl(i, il as usize), il, n) }
#[no_mangle] pub unsafe extern "C" fn rs_prf(h: u32, out: *mut u8, i: *const u8, key: *const u8, kl: u32) -> u32 { hash::prf(&hf(h), sm(out, kl as usize), sl(i, 32), sl(key, kl as usize), kl) }
#[no_mangle] pub unsafe extern "C" fn rs_h_msg(h: u32, out: *mut u8, i: *const u8, il: u64, key: *const u8, kl: u32, n: u32) -> u32 { hash::h_msg(&hf(h), sm(out, n as usize), sl(i, il as usize), il, sl(key, kl as usize), kl, n) }
#[no_mangle] pub unsafe extern "C" fn rs_hash_f(h: u32, out: *mut u8, i: *const u8, ps: *const u8, a: *mut u32, n: u32) -> u32 { hash::hash_f(&hf(h), sm(out, n as usize), sl(i, n as usize), sl(ps, n as usize), ad(a), n) }
#[no_mangle] pub unsafe extern "C" fn rs_hash_h(h: u32, out: *mut u8, i: *const u8, ps: *const u8, a: *mut u32, n: u32) -> u32 { hash::hash_h(&hf(h), sm(out, n as usize), sl(i, 2 * n as usize), sl(ps, n as usize), ad(a), n) }
#[no_mangle] pub unsafe extern "C" fn rs_wots_params(n: u32, w: u32, o: *mut u32) { let p = WOTSParams::new(n, w); for (i, v) in [p.len_1, p.len_2, p.len, p.n, p.w, p.log_w, p.keysize].iter().enumerate() { *o.add(i) = *v; } }
#[no_mangle] pub unsafe extern "C" fn rs_wots_sign(h: u32, sig: *mut u8, m: *const u8, sk: *const u8, w: u32, ps: *const u8, a: *mut u32) { let p = WOTSParams::new(32, w); wots::wots_sign(&hf(h), sm(sig, p.keysize as usize), sl(m, 32), sl(sk, 32), &p, sl(ps, 32), ad(a)) }
#[no_mangle] pub unsafe extern "C" fn rs_wots_pk_from_sig(h: u32, pk: *mut u8, sig: *const u8, m: *const u8, w: u32, ps: *const u8, a: *mut u32) { let p = WOTSParams::new(32, w); wots::wots_pk_from_sig(&hf(h), sm(pk, p.keysize as usize), sl(sig, p.keysize as usize), sl(m, 32), &p, sl(ps, 32), ad(a)) }
#[no_mangle] pub unsafe extern "C" fn rs_wots_pkgen(h: u32, pk: *mut u8, sk: *const u8, w: u32, ps: *const u8, a: *mut u32) { let p = WOTSParams::new(32, w); wots::wots_pkgen(&hf(h), sm(pk, p.keysize as usize), sl(sk, 32), &p, sl(ps, 32), ad(a)) }
#[no_mangle] pub unsafe extern "C" fn rs_l_tree(h: u32, leaf: *mut u8, pk: *mut u8, w: u32, ps: *const u8, a: *mut u32) { let p = WOTSParams::new(32, w); xmss_common::l_tree(&hf(h), &p, sm(leaf, 32), sm(pk, p.keysize as usize), sl(ps, 32), ad(a)) }
// key objects
macro_rules! obj { ($t:ty, $pk:ident, $sk:ident, $idx:ident, $rem:ident, $seti:ident, $sign:ident, $ext:ident, $addr:ident, $free:ident, $ss:ident, $part:ident) => {
    #[no_mangle] pub unsafe extern "C" fn $pk(x: *const $t, o: *mut u8) -> i64 { put(o, &(*x).get_pk()) }
    #[no_mangle] pub unsafe extern "C" fn $sk(x: *const $t, o: *mut u8) -> i64 { put(o, (*x).get_sk()) }
    #[no_mangle] pub unsafe extern "C" fn $ext(x: *const $t, o: *mut u8) -> i64 { put(o, &(*x).get_extended_seed()) }
    #[no_mangle] pub unsafe extern "C" fn $addr(x: *const $t, o: *mut u8) -> i64 { match (*x).get_address() { Ok(a) => put(o, &a), Err(_) => -1 } }
    #[no_mangle] pub unsafe extern "C" fn $idx(x: *const $t) -> u32 { (*x).get_index() }
    #[no_mangle] pub unsafe extern "C" fn $rem(x: *const $t) -> u32 { (*x).get_remaining_signatures() }
    #[no_mangle] pub unsafe extern "C" fn $ss(x: *const $t, w: u32) -> u32 { (*x).get_signature_size(Some(w)) }
    #[no_mangle] pub unsafe extern "C" fn $seti(x: *mut $t, i: u32) -> i64 { match (*x).set_index(i) { Ok(v) => v as i64, Err(_) => -1 } }
    #[no_mangle] pub unsafe extern "C" fn $sign(x: *mut $t, m: *const u8, n: usize, o: *mut u8, cap: usize) -> i64 { let mv = sl(m, n).to_vec(); match (*x).sign(&mv) { Ok(s) => if s.len() > cap { -2 } else { put(o, &s) }, Err(_) => -1 } }
    #[no_mangle] pub unsafe extern "C" fn $part(x: *const $t, k: u32, o: *mut u8) -> i64 { let x = &*x; match k { 0 => put(o, &x.get_sk_seed()), 1 => put(o, &x.get_sk_prf()), 2 => put(o, &x.get_pk_seed()), 3 => put(o, &x.get_root()), 4 => put(o, x.get_seed()), 5 => put(o, &x.get_descriptor_bytes()), _ => { *o = x.get_height(); 1 } } }
    #[no_mangle] pub unsafe extern "C" fn $free(x: *mut $t) { drop(Box::from_raw(x)) }
} }
obj!(XMSSFast, rs_fast_pk, rs_fast_sk, rs_fast_index, rs_fast_remaining, rs_fast_set_index, rs_fast_sign, rs_fast_ext, rs_fast_address, rs_fast_free, rs_fast_sigsize, rs_fast_part);
obj!(XMSSBasic, rs_basic_pk, rs_basic_sk, rs_basic_index, rs_basic_remaining, rs_basic_set_index, rs_basic_sign, rs_basic_ext, rs_basic_address, rs_basic_free, rs_basic_sigsize, rs_basic_part);
fn bx<T>(r: Result<T, QRLError>) -> *mut T { match r { Ok(x) => Box::into_raw(Box::new(x)), Err(_) => std::ptr::null_mut() } }
#[no_mangle] pub unsafe extern "C" fn rs_fast_new(seed: *const u8, n: usize, h: u8, f: u32) -> *mut XMSSFast { bx(XMSSFast::new(sl(seed, n).to_vec(), h, Some(hf(f)), None, None)) }
#[no_mangle] pub unsafe extern "C" fn rs_fast_new_w(seed: *const u8, n: usize, h: u8, f: u32, w: u32) -> *mut XMSSFast { bx(XMSSFast::new(sl(seed, n).to_vec(), h, Some(hf(f)), Some(AddrFormatType::SHA256_2X), Some(w))) }
#[no_mangle] pub unsafe extern "C" fn rs_nsig(fast: u32, x: *const u8) -> u32 { if fast != 0 { (*(x as *const XMSSFast)).get_number_signatures() } else { (*(x as *const XMSSBasic)).get_number_signatures() } }
#[no_mangle] pub unsafe extern "C" fn rs_const(k: u32) -> u32 { if k == 0 { <XMSSBase as XMSSBaseTrait>::get_secret_key_size() as u32 } else { <XMSSBase as XMSSBaseTrait>::get_public_key_size() as u32 } }
#[no_mangle] pub unsafe extern "C" fn rs_base_size(w: u32) -> u32 { <XMSSBase as XMSSBaseTrait>::calculate_signature_base_size(Some(w)) }
#[no_mangle] pub unsafe extern "C" fn rs_fast_new_default(seed: *const u8, n: usize, h: u8) -> *mut XMSSFast { bx(XMSSFast::new(sl(seed, n).to_vec(), h, None, None, None)) }
#[no_mangle] pub unsafe extern "C" fn rs_fast_from_ext(seed: *const u8, n: usize) -> *mut XMSSFast { bx(XMSSFast::from_extended_seed(&sl(seed, n).to_vec())) }
#[no_mangle] pub unsafe extern "C" fn rs_basic_new(seed: *const u8, n: usize, h: u8, f: u32, w: u32) -> *mut XMSSBasic { bx(XMSSBasic::new(sl(seed, n).to_vec(), h, hf(f), AddrFormatType::SHA256_2X, Some(w))) }
#[no_mangle] pub unsafe extern "C" fn rs_verify(m: *mut u8, ml: usize, s: *const u8, n: usize, pk: *const u8, pl: usize, w: u32) -> i32 {
    let mut mv = sl(m, ml).to_vec(); let r = <XMSSBase as XMSSBaseTrait>::verify(&mut mv, &sl(s, n).to_vec(), &sl(pk, pl).to_vec(), Some(w)); put(m, &mv); if r.is_ok() { 1 } else { 0 }
}
#[no_mangle] pub unsafe extern "C" fn rs_height_from_sigsize(n: usize, w: u32) -> i32 { match <XMSSBase as XMSSBaseTrait>::get_height_from_sig_size(n, Some(w)) { Ok(h) => h as i32, Err(_) => -1 } }
// descriptor, address
unsafe fn fields(d: &QRLDescriptor, o: *mut u8) -> i32 { *o = *d.get_hash_function() as u8; *o.add(1) = *d.get_signature_type() as u8; *o.add(2) = d.get_height(); *o.add(3) = *d.get_addr_format_type() as u8; 1 }
#[no_mangle] pub unsafe extern "C" fn rs_descr_decode(b: *const u8, n: usize, kind: u32, o: *mut u8) -> i32 {
    let v = sl(b, n).to_vec(); let r = match kind { 0 => QRLDescriptor::from_bytes(&v), 1 => QRLDescriptor::from_extended_seed(&v), _ => QRLDescriptor::from_extended_pk(&v) };
    match r { Ok(d) => { fields(&d, o); put(o.add(4), &d.get_bytes()) as i32 } Err(_) => 0 }
}
#[no_mangle] pub unsafe extern "C" fn rs_descr_new(h: u32, height: u8, o: *mut u8) -> i32 { let d = QRLDescriptor::new(hf(h), SignatureType::XMSS, height, AddrFormatType::SHA256_2X); fields(&d, o); put(o.add(4), &d.get_bytes()) as i32 }
#[no_mangle] pub unsafe extern "C" fn rs_get_address(pk: *const u8, n: usize, o: *mut u8) -> i64 { match qrl_helper::get_address(&sl(pk, n).to_vec()) { Ok(a) => put(o, &a), Err(_) => -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_address_is_valid(a: *const u8, n: usize) -> i32 { qrl_helper::address_is_valid(&sl(a, n).to_vec()) as i32 }
// misc, hashing
#[no_mangle] pub unsafe extern "C" fn rs_word_count() -> usize { wordlist::WORDLIST.len() }
#[no_mangle] pub unsafe extern "C" fn rs_word(i: usize, n: *mut usize) -> *const u8 { let l: &[&str] = &wordlist::WORDLIST; let w = l[i]; *n = w.len(); w.as_ptr() }
unsafe fn st(p: *const u8, n: usize) -> String { String::from_utf8_unchecked(sl(p, n).to_vec()) }
#[no_mangle] pub unsafe extern "C" fn rs_bin2hstr(p: *const u8, n: usize, wrap: u32, o: *mut u8) -> i64 { put(o, misc::bin2hstr(&sl(p, n).to_vec(), wrap).as_bytes()) }
#[no_mangle] pub unsafe extern "C" fn rs_hstr2bin(p: *const u8, n: usize, o: *mut u8) -> i64 { match misc::hstr2bin(&st(p, n)) { Ok(v) => put(o, &v), Err(_) => -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_bin2mnemonic(p: *const u8, n: usize, o: *mut u8) -> i64 { match misc::bin2mnemonic(&sl(p, n).to_vec()) { Ok(v) => put(o, v.as_bytes()), Err(_) => -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_mnemonic2bin(p: *const u8, n: usize, o: *mut u8) -> i64 { match misc::mnemonic2bin(&st(p, n)) { Ok(v) => put(o, &v), Err(_) => -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_str2bin(p: *const u8, n: usize, o: *mut u8) -> i64 { put(o, &misc::str2bin(&st(p, n))) }
#[no_mangle] pub unsafe extern "C" fn rs_binstr2hstr(p: *const u8, n: usize, wrap: u32, o: *mut u8) -> i64 { put(o, misc::binstr2hstr(&st(p, n), wrap).as_bytes()) }
#[no_mangle] pub unsafe extern "C" fn rs_hash_chain(p: *const u8, n: usize, shift: u32, count: u32, o: *mut u8) -> i64 { let v = misc::get_hash_chain_seed(&sl(p, n).to_vec(), shift, count); let mut k = 0; for x in &v { k += put(o.add(k as usize), x); } if k == 32 * v.len() as i64 { v.len() as i64 } else { -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_random_seed(sz: u32, e: *const u8, n: usize, o: *mut u8) -> i64 { put(o, &misc::get_random_seed(sz, &st(e, n))) }
#[no_mangle] pub unsafe extern "C" fn rs_helper(which: u32, ol: usize, p: *const u8, n: usize, o: *mut u8) -> i64 { let v = sl(p, n).to_vec(); put(o, &match which { 0 => hashing::shake128(ol, &v), 1 => hashing::shake256(ol, &v), _ => hashing::sha2_256(&v) }) }
#[no_mangle] pub unsafe extern "C" fn rs_sha2_256_n(p: *const u8, n: usize, c: usize, o: *mut u8) -> i64 { match hashing::sha2_256_n(&sl(p, n).to_vec(), c) { Ok(v) => put(o, &v), Err(_) => -1 } }
// Dilithium, Kyber
use crate::rust_wrapper::dilithium::dilithium::Dilithium; use crate::rust_wrapper::kyber::kyber::Kyber;
use crate::pq::sign::{PublicKey as _, SecretKey as _, SignedMessage as _};
use crate::pq::kem::{PublicKey as _, SecretKey as _, Ciphertext as _, SharedSecret as _};
#[no_mangle] pub unsafe extern "C" fn rs_dil_new(pk: *const u8, pl: usize, sk: *const u8, sn: usize) -> *mut Dilithium { match Dilithium::new(sl(pk, pl), sl(sk, sn)) { Ok(d) => Box::into_raw(Box::new(d)), Err(_) => std::ptr::null_mut() } }
#[no_mangle] pub unsafe extern "C" fn rs_dil_default() -> *mut Dilithium { Box::into_raw(Box::new(Dilithium::default())) }
#[no_mangle] pub unsafe extern "C" fn rs_dil_pk(d: *const Dilithium, o: *mut u8) -> i64 { put(o, (*d).get_pk().as_bytes()) }
#[no_mangle] pub unsafe extern "C" fn rs_dil_sk(d: *const Dilithium, o: *mut u8) -> i64 { put(o, (*d).get_sk().as_bytes()) }
#[no_mangle] pub unsafe extern "C" fn rs_dil_do_sign(d: *const Dilithium, m: *const u8, n: usize, o: *mut u8) -> i64 { put(o, (*d).sign(sl(m, n)).as_bytes()) }
#[no_mangle] pub unsafe extern "C" fn rs_dil_do_open(s: *const u8, n: usize, pk: *const u8, o: *mut u8) -> i64 {
    let sm_ = crate::pq::dilithium5::SignedMessage::from_bytes(sl(s, n)).unwrap(); let p = crate::pq::dilithium5::PublicKey::from_bytes(sl(pk, 2592)).unwrap();
    match Dilithium::sign_open(&sm_, &p) { Ok(v) => put(o, &v), Err(_) => -1 }
}
#[no_mangle] pub unsafe extern "C" fn rs_dil_extract(which: u32, s: *const u8, n: usize, o: *mut u8) -> i64 { let v = sl(s, n).to_vec(); match if which == 0 { Dilithium::extract_message(&v) } else { Dilithium::extract_signature(&v) } { Ok(v) => put(o, &v), Err(_) => -1 } }
#[no_mangle] pub unsafe extern "C" fn rs_kyber_new(pk: *const u8, pl: usize, sk: *const u8, sn: usize) -> *mut Kyber { match Kyber::new(sl(pk, pl), sl(sk, sn)) { Ok(d) => Box::into_raw(Box::new(d)), Err(_) => std::ptr::null_mut() } }
#[no_mangle] pub unsafe extern "C" fn rs_kyber_default() -> *mut Kyber { Box::into_raw(Box::new(Kyber::default())) }
#[no_mangle] pub unsafe extern "C" fn rs_kyber_get(k: *const Kyber, which: u32, o: *mut u8) -> i64 { match which { 0 => put(o, (*k).get_pk().as_bytes()), 1 => put(o, (*k).get_sk().as_bytes()), 2 => put(o, (*k).get_shared_secret().as_bytes()), _ => put(o, (*k).get_cipher_text().as_bytes()) } }
#[no_mangle] pub unsafe extern "C" fn rs_kyber_encode(k: *mut Kyber, pk: *const u8) { (*k).kem_encode(crate::pq::kyber768::PublicKey::from_bytes(sl(pk, 1184)).unwrap()) }
#[no_mangle] pub unsafe extern "C" fn rs_kyber_decode(k: *mut Kyber, ct: *const u8) { (*k).kem_decode(crate::pq::kyber768::Ciphertext::from_bytes(sl(ct, 1088)).unwrap()) }
// tree pool
use xmss_pool::XMSSPool;
#[no_mangle] pub unsafe extern "C" fn rs_pool_new(base: *const u8, n: usize, h: u8, start: usize, cache: usize) -> *mut XMSSPool { match XMSSPool::new(sl(base, n).to_vec(), h, start, cache) { Ok(p) => Box::into_raw(Box::new(p)), Err(_) => std::ptr::null_mut() } }
#[no_mangle] pub unsafe extern "C" fn rs_pool_next(p: *mut XMSSPool) -> *mut XMSSFast { bx((*p).get_next_tree()) }
#[no_mangle] pub unsafe extern "C" fn rs_pool_index(p: *const XMSSPool) -> usize { (*p).get_current_index() }
#[no_mangle] pub unsafe extern "C" fn rs_pool_available(p: *const XMSSPool) -> i32 { (*p).is_available() as i32 }
#[no_mangle] pub unsafe extern "C" fn rs_pool_free(p: *mut XMSSPool) { drop(Box::from_raw(p)) }
