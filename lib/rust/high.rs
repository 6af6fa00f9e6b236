// XMSS internals at an arbitrary index of a tall tree (harness/c05h.cpp): the traversal state is given, not grown
use crate::rust_wrapper::xmss_alt::{algsxmss_fast::*, hash_functions::HashFunction, wots::WOTSParams, xmss_common::XMSSParams};
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { std::slice::from_raw_parts(p, n) }
fn hf(h: u32) -> HashFunction { match h { 0 => HashFunction::SHA2_256, 1 => HashFunction::Shake128, _ => HashFunction::Shake256 } }
fn state(h: usize, auth: &[u8]) -> BDSState {
    let mut s = BDSState::default(); s.stack = vec![0; (h + 1) * 32]; s.stacklevels = vec![0; h + 1]; s.auth = auth.to_vec(); s.keep = vec![0; (h >> 1) * 32]; s.retain = vec![0; 32];
    for _ in 0..h - 2 { let mut t = TreeHashInst::default(); t.node = vec![0; 32]; s.treehash.push(t); } s
}
#[no_mangle] pub unsafe extern "C" fn rs_high_sign(f: u32, h: u32, sk: *mut u8, auth: *const u8, out: *mut u8, n: usize, m: *const u8, ml: usize) {
    let p = XMSSParams::new(32, h, 16, 2).ok().unwrap(); let mut s = state(h as usize, sl(auth, h as usize * 32)); let sk = std::slice::from_raw_parts_mut(sk, 132); let o = std::slice::from_raw_parts_mut(out, n);
    xmss_fast_sign_msg(&hf(f), &p, sk, &mut s, o, sl(m, ml), ml);
}
#[no_mangle] pub unsafe extern "C" fn rs_high_update(f: u32, h: u32, sk: *mut u8, to: u32) -> i32 {
    let p = XMSSParams::new(32, h, 16, 2).ok().unwrap(); let a = vec![0u8; h as usize * 32]; let mut s = state(h as usize, &a); let sk = std::slice::from_raw_parts_mut(sk, 132);
    match xmss_fast_update(&hf(f), &p, sk, &mut s, to) { Ok(_) => 0, Err(_) => -1 }
}
// one signature on a given state; every part of it is copied in and out
#[no_mangle] pub unsafe extern "C" fn rs_high_step(f: u32, h: u32, sk: *mut u8, auth: *mut u8, keep: *mut u8, nodes: *mut u8, retain: *mut u8, completed: *mut u8, out: *mut u8, n: usize, m: *const u8, ml: usize) {
    let p = XMSSParams::new(32, h, 16, 2).ok().unwrap(); let hh = h as usize; let mut s = state(hh, sl(auth, hh * 32)); s.keep = sl(keep, (hh >> 1) * 32).to_vec(); s.retain = sl(retain, 32).to_vec();
    for i in 0..hh - 2 { s.treehash[i].h = i as u32; s.treehash[i].completed = 1; s.treehash[i].node = sl(nodes.add(32 * i), 32).to_vec(); }
    let sk = std::slice::from_raw_parts_mut(sk, 132); let o = std::slice::from_raw_parts_mut(out, n);
    xmss_fast_sign_msg(&hf(f), &p, sk, &mut s, o, sl(m, ml), ml);
    std::ptr::copy_nonoverlapping(s.auth.as_ptr(), auth, hh * 32); std::ptr::copy_nonoverlapping(s.keep.as_ptr(), keep, (hh >> 1) * 32);
    for i in 0..hh - 2 { *completed.add(i) = s.treehash[i].completed; std::ptr::copy_nonoverlapping(s.treehash[i].node.as_ptr(), nodes.add(32 * i), 32); }
}
#[no_mangle] pub fn rsm_bds_round(_h: &HashFunction, _s: &mut BDSState, _i: u64, _k: &mut [u8], _p: &XMSSParams, _u: &mut [u8], _a: &mut [u32; 8]) {}
#[no_mangle] pub fn rsm_bds_treehash_update(_h: &HashFunction, _s: &mut BDSState, _i: u32, _k: &[u8], _p: &XMSSParams, _u: &mut [u8], _a: &mut [u32; 8]) {}
