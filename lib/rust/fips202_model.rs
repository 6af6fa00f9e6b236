// SHAKE as an oracle (uninterpreted function); C08 checks the real module
extern "C" { fn rs_oracle_shake(which: u32, out: *mut u8, ol: usize, input: *const u8, il: usize); }
pub fn shake128(output: &mut [u8], outlen: usize, input: &[u8], inlen: u64) { let o = &mut output[0..outlen]; let i = &input[0..inlen as usize]; unsafe { rs_oracle_shake(128, o.as_mut_ptr(), outlen, i.as_ptr(), i.len()) } }
pub fn shake256(output: &mut [u8], outlen: usize, input: &[u8], inlen: u64) { let o = &mut output[0..outlen]; let i = &input[0..inlen as usize]; unsafe { rs_oracle_shake(256, o.as_mut_ptr(), outlen, i.as_ptr(), i.len()) } }
