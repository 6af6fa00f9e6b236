// Rust face of the WOTS/L-tree abstraction of harness/leafmodel.h (job option redirect)
use crate::rust_wrapper::xmss_alt::{hash_functions::HashFunction, wots::WOTSParams};
extern "C" {
    fn rsc_wots_pkgen(hf: u32, pk: *mut u8, sk: *const u8, w: u32, len: u32, ks: u32, ps: *const u8, a: *mut u32);
    fn rsc_l_tree(hf: u32, leaf: *mut u8, pk: *mut u8, w: u32, len: u32, ks: u32, ps: *const u8, a: *mut u32);
    fn rsc_wots_pk_from_sig(hf: u32, pk: *mut u8, sig: *const u8, m: *const u8, w: u32, len: u32, ks: u32, ps: *const u8, a: *mut u32);
    fn rsc_permute(s: *mut u64);
    fn rsc_prf(out: *mut u8, n: u32);
    fn rsc_hash_f(out: *mut u8, i: *const u8, a: *mut u32, n: u32);
    fn rsc_wots_sign(hf: u32, sig: *mut u8, m: *const u8, sk: *const u8, w: u32, len: u32, ks: u32, ps: *const u8, a: *mut u32);
}
#[no_mangle] pub fn rsm_wots_pkgen(hf: &HashFunction, pk: &mut [u8], sk: &[u8], p: &WOTSParams, ps: &[u8], a: &mut [u32; 8]) {
    let pk = &mut pk[..p.keysize as usize]; let sk = &sk[..32]; let ps = &ps[..32];
    unsafe { rsc_wots_pkgen(*hf as u32, pk.as_mut_ptr(), sk.as_ptr(), p.w, p.len, p.keysize, ps.as_ptr(), a.as_mut_ptr()) }
}
#[no_mangle] pub fn rsm_l_tree(hf: &HashFunction, p: &WOTSParams, leaf: &mut [u8], pk: &mut [u8], ps: &[u8], a: &mut [u32; 8]) {
    let leaf = &mut leaf[..32]; let pk = &mut pk[..p.keysize as usize]; let ps = &ps[..32];
    unsafe { rsc_l_tree(*hf as u32, leaf.as_mut_ptr(), pk.as_mut_ptr(), p.w, p.len, p.keysize, ps.as_ptr(), a.as_mut_ptr()) }
}
#[no_mangle] pub fn rsm_wots_sign(hf: &HashFunction, sig: &mut [u8], m: &[u8], sk: &[u8], p: &WOTSParams, ps: &[u8], a: &mut [u32; 8]) {
    let sig = &mut sig[..p.keysize as usize]; let m = &m[..32]; let sk = &sk[..32]; let ps = &ps[..32];
    unsafe { rsc_wots_sign(*hf as u32, sig.as_mut_ptr(), m.as_ptr(), sk.as_ptr(), p.w, p.len, p.keysize, ps.as_ptr(), a.as_mut_ptr()) }
}
#[no_mangle] pub fn rsm_wots_pk_from_sig(hf: &HashFunction, pk: &mut [u8], sig: &[u8], m: &[u8], p: &WOTSParams, ps: &[u8], a: &mut [u32; 8]) {
    let pk = &mut pk[..p.keysize as usize]; let sig = &sig[..p.keysize as usize]; let m = &m[..32]; let ps = &ps[..32];
    unsafe { rsc_wots_pk_from_sig(*hf as u32, pk.as_mut_ptr(), sig.as_ptr(), m.as_ptr(), p.w, p.len, p.keysize, ps.as_ptr(), a.as_mut_ptr()) }
}
#[no_mangle] pub fn rsm_keccak_f1600_state_permute(s: &mut [u64]) { let s = &mut s[..25]; unsafe { rsc_permute(s.as_mut_ptr()) } }
// step counter of harness/c07.cpp
#[no_mangle] pub fn rsm_prf(_hf: &HashFunction, out: &mut [u8], _i: &[u8], _k: &[u8], n: u32) -> u32 { let out = &mut out[..n as usize]; unsafe { rsc_prf(out.as_mut_ptr(), n) }; 0 }
#[no_mangle] pub fn rsm_hash_f(_hf: &HashFunction, out: &mut [u8], i: &[u8], _ps: &[u8], a: &mut [u32; 8], n: u32) -> u32 { let out = &mut out[..n as usize]; let i = &i[..n as usize]; unsafe { rsc_hash_f(out.as_mut_ptr(), i.as_ptr(), a.as_mut_ptr(), n) }; 0 }
