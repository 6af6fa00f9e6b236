# Planted changes: id, property, edits, sources used by the demo, demo.cpp body, needs, what it breaks.
PRE = r'''#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
typedef std::vector<unsigned char> Bytes;
static Bytes fill(size_t n, unsigned s) { Bytes b(n); unsigned x = s * 2654435761u + 99; for (auto &v : b) { x = x * 1103515245u + 12345; v = x >> 16; } return b; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
X = '#include "qrl/xmssFast.h"\n#include "qrl/xmssBasic.h"\n#include "qrl/qrlHelper.h"\n'
S = []
def seed(id, prop, edits, src, demo, needs, what): S.append((id, prop, edits, src, PRE + demo, needs, what))
A = 'src/xmss-alt/'; Q = 'src/qrl/'
seed('bds-keep-top', 'C02', [(A + 'algsxmss_fast.c', '&& (tau < h - 1)) {', '&& (tau < h - 2)) {')], 'core', X + r'''
int main() {
  XmssFast k(fill(48, 1), 6, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X); auto pk = k.getPK();
  for (int i = 0; i < 64; i++) { auto m = fill(20, i); CHECK(XmssBase::verify(m, k.sign(m), pk)); }
  return 0;
}''', 'signing through the middle of the tree (index 2^(h-1) and after)', 'the node kept for the top right subtree is not saved, so the authentication path computed from it is wrong')
seed('bds-last-update', 'C02', [(A + 'algsxmss_fast.c', 'if (startidx < 1U << h) {', 'if (startidx + (1 << i) < 1U << h) {')], 'core', X + r'''
int main() {
  for (int h = 4; h <= 8; h += 2) {
    XmssFast k(fill(48, 2), h, eHashFunction::SHA2_256, eAddrFormatType::SHA256_2X); auto pk = k.getPK();
    for (int i = 0; i < 1 << h; i++) { auto m = fill(20, i); CHECK(XmssBase::verify(m, k.sign(m), pk)); }
  }
  return 0;
}''', 'signing up to the last few indices of a tree', 'the last treehash instance of a level is not started, so authentication paths near the end of the key are wrong')
seed('setindex-end', 'C05', [(A + 'algsxmss_fast.c', 'if (new_idx>=num_elems)', 'if (new_idx>num_elems)')], 'core', X + r'''
int main() {
  XmssFast k(fill(48, 3), 4, eHashFunction::SHAKE_256, eAddrFormatType::SHA256_2X);
  bool t = false; try { k.setIndex(16); } catch (std::exception &) { t = true; } CHECK(t && k.getIndex() == 0);
  k.setIndex(15); k.sign(fill(5, 1)); t = false; try { k.sign(fill(5, 2)); } catch (std::exception &) { t = true; } CHECK(t);
  return 0;
}''', 'moving a fast key to exactly 2^h, or signing once more after the last index', 'an exhausted fast key no longer refuses to sign: it returns a signature for the index 2^h that does not exist')
seed('sigsize-mod16', 'C06', [(Q + 'xmssBase.cpp', 'if ((sigSize-4)%32!=0) {', 'if ((sigSize-4)%16!=0) {')], 'core', X + r'''
int main() {
  XmssFast k(fill(48, 4), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X); auto m = fill(9, 1); auto pk = k.getPK(); auto s = k.sign(m); CHECK(XmssBase::verify(m, s, pk));
  for (int n = 1; n < 64; n++) { auto t = s; t.insert(t.end(), n, 0x55); bool ok = XmssBase::verify(m, t, pk); CHECK(!ok); }
  return 0;
}''', 'a signature with 16 bytes appended', 'signatures of a wrong size are accepted, so signatures become malleable')
seed('wots-checksum-tail', 'C07', [(A + 'wots.c', '''    for (i = 0; i < params->len_1; i++) {
        csum += params->w - 1 - basew[i];''', '''    for (i = 0; i + 1 < params->len_1; i++) {
        csum += params->w - 1 - basew[i];'''), (A + 'wots.c', '''    for (i = 0; i < XMSS_WOTS_LEN1; i++) {
        csum += XMSS_WOTS_W - 1 - basew[i];''', '''    for (i = 0; i + 1 < XMSS_WOTS_LEN1; i++) {
        csum += XMSS_WOTS_W - 1 - basew[i];''')], 'core', X + r'''#include "xmss-alt/wots.h"
int main() { // move the last message chain of a signature forward by one: no other chain has to move back
  for (int w : {4, 16}) {
    wots_params p; wots_set_params(&p, 32, w); auto sk = fill(32, 5), ps = fill(32, 6), m = fill(32, 7); m[31] &= ~3; auto m2 = m; m2[31]++;
    uint32_t a[8] = {0}; Bytes s(p.keysize), s2(p.keysize); wots_sign(eHashFunction::SHA2_256, s.data(), m.data(), sk.data(), &p, ps.data(), a); memset(a, 0, 32);
    wots_sign(eHashFunction::SHA2_256, s2.data(), m2.data(), sk.data(), &p, ps.data(), a);
    bool tail = memcmp(&s[p.len_1 * 32], &s2[p.len_1 * 32], p.len_2 * 32) != 0; CHECK(tail);
  }
  return 0;
}''', 'two digests that differ in the last digit only; signer and verifier agree with each other', 'the WOTS+ checksum leaves out the last message digit in signing and verification, so a signature can be moved to a digest with a larger last digit')
seed('keccak-rate', 'C08', [(A + 'fips202.c', 'while (mlen >= r) {', 'while (mlen > r) {')], 'keccak', r'''
#include "xmss-alt/fips202.h"
int main() { // SHAKE256 of 136 zero bytes and SHAKE128 of 168 zero bytes
  Bytes z(168, 0), dummy(1);
  unsigned char a[8]; shake256(a, 8, z.data(), 136);
  static const unsigned char K256[8] = {234,148,123,131,95,236,31,155}, K128[8] = {124,0,255,71,72,135,12,178};
  CHECK(!memcmp(a, K256, 8)); shake128(a, 8, z.data(), 168); CHECK(!memcmp(a, K128, 8));
  return 0;
}''', 'an input of exactly one (or a whole number of) sponge blocks', 'the padding of inputs that end on a block boundary is lost')
seed('sha2-hmsg-tail', 'C09', [(A + 'hash.c', 'sha2_256(out, buf, inlen + keylen + n);', 'sha2_256(out, buf, inlen + 2 * n);')], 'core', X + r'''
int main() {
  XmssFast k(fill(48, 8), 4, eHashFunction::SHA2_256, eAddrFormatType::SHA256_2X); auto pk = k.getPK();
  for (size_t n : {1, 40, 64, 65, 200}) { auto m = fill(n, n); auto s = k.sign(m); CHECK(XmssBase::verify(m, s, pk)); for (size_t i = 0; i < n; i++) { auto m2 = m; m2[i] ^= 1; CHECK(!XmssBase::verify(m2, s, pk)); } }
  return 0;
}''', 'SHA2-256 keys; a change within the last 64 bytes of the message', 'the message hash leaves out the end of the message for SHA2-256 keys')
seed('descr-height', 'C10', [(Q + 'qrlDescriptor.h', '((_height >> 1) & 0x0F)),', '((_height >> 1) & 0x07)),')], 'core', X + r'''
int main() {
  for (int h = 0; h <= 30; h += 2) for (int f = 0; f < 16; f++) { QRLDescriptor d(eHashFunction::SHAKE_256, eSignatureType::XMSS, h, (eAddrFormatType)f); auto e = QRLDescriptor::fromBytes(d.getBytes()); CHECK(e.getHeight() == h); CHECK(e.getAddrFormatType() == f); }
  return 0;
}''', 'a tree height of 16 or more', 'the descriptor does not encode heights above 14')
seed('address-long', 'C11', [(Q + 'qrlHelper.h', 'if (address.size()!=(QRLDescriptor::getSize()+ADDRESS_HASH_SIZE+4))', 'if (address.size()<(QRLDescriptor::getSize()+ADDRESS_HASH_SIZE+4))')], 'core', X + r'''
int main() {
  Bytes pk = fill(67, 9); pk[0] = 1; pk[1] = 5; pk[2] = 0; auto a = QRLHelper::getAddress(pk); CHECK(a.size() == 39); CHECK(QRLHelper::addressIsValid(a));
  for (int n = 1; n < 10; n++) { auto b = a; b.insert(b.end(), n, 7); CHECK(!QRLHelper::addressIsValid(b)); } for (int n = 0; n < 39; n++) CHECK(!QRLHelper::addressIsValid(Bytes(a.begin(), a.begin() + n)));
  return 0;
}''', 'a valid address with bytes appended', 'address validation accepts byte strings longer than an address')
seed('hex-second-digit', 'C12', [(Q + 'misc.cpp', 'if (!std::isxdigit(s[i]) || !std::isxdigit(s[i + 1])) {', 'if (!std::isxdigit(s[i]) && !std::isxdigit(s[i + 1])) {')], 'misc', r'''#include "qrl/misc.h"
int main() {
  CHECK(hstr2bin("00ffA1") == (Bytes{0, 255, 0xa1}));
  for (const char *s : {"g0", "0g", "00zz", "0011z1", "001 ", "-1", "xx"}) { bool t = false; try { hstr2bin(s); } catch (std::exception &) { t = true; } CHECK(t); }
  return 0;
}''', 'a pair of characters of which exactly one is a hex digit', 'text that is not hexadecimal is decoded instead of refused')
seed('mnemonic-nibble', 'C12', [(Q + 'misc.cpp', 'int idx = nibble % 2 == 0 ? (b1 << 4) + (b2 >> 4) : ((b1 & 0x0F) << 8) + b2;', 'int idx = nibble % 2 == 0 ? (b1 << 4) + (b2 >> 4) : ((b1 & 0x07) << 8) + b2;')], 'misc', r'''#include "qrl/misc.h"
int main() {
  for (int v = 0; v < 256; v++) for (int p = 0; p < 6; p++) { Bytes b(6, 1); b[p] = v; CHECK(mnemonic2bin(bin2mnemonic(b)) == b); }
  return 0;
}''', 'a byte string in which the fourth bit of every second 12-bit group is set', 'different byte strings get the same mnemonic')
seed('chain-shift', 'C14', [(Q + 'misc.cpp', '''    for (int j = 0; j < sizeof(uint32_t); j++) {
        tmp_seed[p + j] = static_cast<unsigned char>((seed_shift''', '''    for (int j = 0; j < sizeof(uint16_t); j++) {
        tmp_seed[p + j] = static_cast<unsigned char>((seed_shift''')], 'misc', r'''#include "qrl/misc.h"
int main() {
  auto s = fill(48, 11); auto a = getHashChainSeed(s, 5, 3), b = getHashChainSeed(s, 5 + 65536, 3), c = getHashChainSeed(s, 5 + (1 << 24), 3);
  for (int i = 0; i < 3; i++) CHECK(a[i] != b[i] && a[i] != c[i] && b[i] != c[i]);
  return 0;
}''', 'seed shifts of 65536 and above', 'shifts that agree in their low 16 bits give the same hash chain seeds')
seed('chain-position', 'C14', [(Q + 'misc.cpp', '''        for (int j = 0; j < sizeof(uint32_t); j++) {
            tmp_seed[p + j] = static_cast<unsigned char>((i >>''', '''        for (int j = 0; j < sizeof(uint16_t); j++) {
            tmp_seed[p + j] = static_cast<unsigned char>((i >>''')], 'misc', r'''#include "qrl/misc.h"
int main() {
  auto s = fill(48, 11); auto a = getHashChainSeed(s, 5, 65540);
  for (int i = 0; i < 4; i++) CHECK(a[i] != a[i + 65536]);
  return 0;
}''', 'more than 65536 chain seeds', 'positions 65536 and above repeat earlier chain seeds')
seed('root-last-byte', 'C03', [(A + 'xmss_common.c', """    for (i = 0; i < n; i++)
        if (root[i] != pk[i])""", """    for (i = 0; i < n - 1; i++)
        if (root[i] != pk[i])""")], 'nosha', X + r"""#include <PicoSHA2/picosha2.h>
// a hash that is real SHA-256 except that the message hash does not see the last root byte: the root comparison must catch it
extern "C" void sha2_256(uint8_t *out, uint8_t *in, size_t n) { Bytes b(in, in + n); if (n >= 128 && b[31] == 2) b[95] = 0; picosha2::demo_sha256(out, b); }
int main() {
  XmssFast k(fill(48, 12), 4, eHashFunction::SHA2_256, eAddrFormatType::SHA256_2X); auto m = fill(9, 1); auto pk = k.getPK(), s = k.sign(m); CHECK(XmssBase::verify(m, s, pk));
  for (int b = 0; b < 32; b++) { auto q = pk; q[3 + b] ^= 0x10; CHECK(!XmssBase::verify(m, s, q)); }
  return 0;
}""", 'a public key that differs from the true one in its last root byte (and a message hash collision, or a search for one)', 'the last byte of the recomputed root is not compared')
seed('tree-index-16', 'C04', [(A + 'hash_address.c', 'adrs[6] = treeIndex;', 'adrs[6] = treeIndex & 0xFFFF;')], 'nosha', X + r"""#include <PicoSHA2/picosha2.h>
static std::vector<Bytes> seen;
extern "C" void sha2_256(uint8_t *out, uint8_t *in, size_t n) { Bytes b(in, in + n); seen.push_back(b); picosha2::demo_sha256(out, b); }
int main() { // the node addresses hashed while verifying a signature of a height 20 tree
  Bytes pk = fill(67, 13); pk[0] = 0; pk[1] = 10; pk[2] = 0; Bytes s = fill(4 + 32 + 67 * 32 + 20 * 32, 14); uint32_t idx = 0xF5A37; s[0] = 0; s[1] = idx >> 16; s[2] = idx >> 8; s[3] = idx;
  XmssBase::verify(fill(3, 1), s, pk); int found[20] = {0};
  for (auto &b : seen) if (b.size() == 96 && b[31] == 3 && !memcmp(&b[32], &pk[35], 32) && b[64 + 15] == 2) { int h = b[64 + 23]; uint32_t i = b[88] << 24 | b[89] << 16 | b[90] << 8 | b[91]; if (h < 20 && i == idx >> (h + 1)) found[h]++; }
  for (int h = 0; h < 20; h++) CHECK(found[h] == 3);
  return 0;
}""", 'a tree of height 18 or more and an index of 131072 or above; signer and verifier agree with each other', 'tree hashes of different positions share an address, so keys and signatures are no longer those of the documented construction')
seed('dil-extract', 'C15', [('src/dilithium/dilithium.cpp', 'message_output.begin(), message_output.begin() + CRYPTO_BYTES);', 'message_output.begin(), message_output.end() - CRYPTO_BYTES);')], 'dil', r'''#include "dilithium/dilithium.h"
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) { memset(pk, 1, CRYPTO_PUBLICKEYBYTES); memset(sk, 2, CRYPTO_SECRETKEYBYTES); return 0; }
int crypto_sign(unsigned char *sm, unsigned long long *n, const unsigned char *m, unsigned long long l, const unsigned char *) { memset(sm, 3, CRYPTO_BYTES); memcpy(sm + CRYPTO_BYTES, m, l); *n = l + CRYPTO_BYTES; return 0; }
int crypto_sign_open(unsigned char *m, unsigned long long *n, const unsigned char *sm, unsigned long long l, const unsigned char *) { *n = l - CRYPTO_BYTES; memcpy(m, sm, l); return 0; }
int main() {
  Dilithium d; for (size_t n : {(size_t)0, (size_t)5, (size_t)CRYPTO_BYTES, (size_t)4000}) { auto m = fill(n, 3); auto sm = d.sign(m); CHECK(Dilithium::extract_message(sm) == m); CHECK(Dilithium::extract_signature(sm) == Bytes(sm.begin(), sm.begin() + CRYPTO_BYTES)); }
  return 0;
}''', 'a message whose length is not that of a signature', 'the signature part of a signed message is cut at the wrong place')
seed('kyber-ct', 'C15', [('src/kyber/kyber.cpp', '_ct.resize(KYBER_CIPHERTEXTBYTES);', '_ct.resize(KYBER_PUBLICKEYBYTES);')], 'kyb', r'''#include "kyber/kyber.h"
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) { memset(pk, 1, KYBER_PUBLICKEYBYTES); memset(sk, 2, KYBER_SECRETKEYBYTES); return 0; }
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *) { memset(ct, 3, KYBER_CIPHERTEXTBYTES); memset(ss, 4, KYBER_SYMBYTES); return 0; }
int crypto_kem_dec(unsigned char *ss, const unsigned char *, const unsigned char *) { memset(ss, 4, KYBER_SYMBYTES); return 0; }
int main() { Kyber a, b; CHECK(a.kem_encode(b.getPK())); CHECK(a.getCypherText().size() == KYBER_CIPHERTEXTBYTES); CHECK(b.kem_decode(a.getCypherText())); CHECK(a.getMyKey() == b.getMyKey()); return 0; }
''', 'an encapsulation', 'the ciphertext buffer handed to the primitive is too small: it writes past the end')
POOL = X + '#include "qrl/xmssPool.h"\n#include <map>\n#include <thread>\n'
seed('pool-index-32', 'C13', [(Q + 'xmssPool.cpp', '    auto idx = index + 1;\n', '    uint32_t idx = static_cast<uint32_t>(index + 1);\n')], 'pool', POOL + r'''
int main() { // the trees of indices i and i + 2^32 must differ
  for (size_t i : {(size_t)0, (size_t)7}) {
    XmssPool a(fill(48, 30), 4, i, 1), b(fill(48, 30), 4, i + (1ULL << 32), 1);
    auto x = a.getNextTree()->getExtendedSeed(), y = b.getNextTree()->getExtendedSeed(); CHECK(x != y);
  }
  return 0;
}''', 'tree indices of 2^32 - 1 and above', 'the index is cut to 32 bits before it is hashed, so indices 2^32 apart issue the same one-time keys')
seed('pool-busy-inline', 'C13', [(Q + 'xmssPool.cpp', '        if (_cache.empty()) {\n            // Claim', '        if (_cache.empty() ||\n            _cache.front().wait_for(std::chrono::seconds(0)) != std::future_status::ready) {\n            // Claim')], 'pool', POOL + r'''
int main() { // height 10 takes far longer than the call: the first tree is not ready yet
  XmssPool p(fill(48, 31), 10, 0, 2); std::map<Bytes, int> seen;
  for (int i = 0; i < 4; i++) { auto t = p.getNextTree(); int n = ++seen[t->getExtendedSeed()]; CHECK(n == 1); CHECK(p.getCurrentIndex() == (size_t)i + 1); }
  return 0;
}''', 'a caller that asks before the background task has finished', 'the caller builds the tree itself but leaves the pending one in the queue, so the same index is issued twice')
seed('pool-claim-late', 'C13', [(Q + 'xmssPool.cpp', '            // Claim the index under the lock; build the tree outside it.\n            index = _current_index++;\n            cache_missed = true;', '            cache_missed = true;'), (Q + 'xmssPool.cpp', '    if (cache_missed) {\n        return prepareTree(index);', '    if (cache_missed) {\n        index = _current_index++;\n        return prepareTree(index);')], 'pool-tsan', POOL + r'''
int main() { // built with the thread sanitizer, which exits with an error when it sees a data race
  XmssPool p(fill(48, 32), 4, 0, 0); std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&] { for (int i = 0; i < 25; i++) { p.getNextTree(); p.getCurrentIndex(); } }); for (auto &x : t) x.join();
  CHECK(p.getCurrentIndex() == 100); return 0;
}''', 'a pool of size 0 and two callers that overlap between the emptiness check and the increment', 'the index is claimed after the lock is released: two callers can be given the same index')
# Rust: demo.rs is compiled against the library's modules (tools/seedkit/rs)
W = 'src/rust_wrapper/'
RPRE = r'''#![allow(warnings)]
use qrs::rust_wrapper::qrl::{xmss_fast::XMSSFast, xmss_basic::XMSSBasic, xmss_base::{XMSSBase, XMSSBaseTrait, Sign}, qrl_helper::*, misc::*, qrl_address_format::AddrFormatType};
use qrs::rust_wrapper::xmss_alt::{hash_functions::HashFunction, wots::*, fips202};
fn fill(n: usize, s: u32) -> Vec<u8> { let mut x = s.wrapping_mul(2654435761).wrapping_add(99); (0..n).map(|_| { x = x.wrapping_mul(1103515245).wrapping_add(12345); (x >> 16) as u8 }).collect() }
'''
def rseed(id, prop, edits, demo, needs, what): S.append((id, prop, edits, 'rs', {'demo.rs': RPRE + demo}, needs, what))
rseed('rust-bds-top', 'C02', [(W + 'xmss_alt/algsxmss_fast.rs', '(tau < h - 1)', '(tau < h - 2)')], r'''
fn main() {
    let mut k = XMSSFast::new(fill(48, 1), 6, Some(HashFunction::SHA2_256), None, None).unwrap(); let pk = k.get_pk();
    for i in 0..64 { let mut m = fill(20, i); let s = k.sign(&m).unwrap(); assert!(XMSSBase::verify(&mut m, &s, &pk, None).is_ok(), "index {}", i); }
}''', 'a Rust fast key signing through the middle of the tree', 'the node kept for the top right subtree is not saved, so later authentication paths are wrong')
rseed('rust-chain-low-byte', 'C14', [(W + 'qrl/misc.rs', '''        for j in 0..size_of::<u32>() {
            tmp_seed[p + j] = (i >> (8 * j)) as u8 & 0xFF;''', '''        for j in 0..size_of::<u8>() {
            tmp_seed[p + j] = (i >> (8 * j)) as u8 & 0xFF;''')], r'''
fn main() { let v = get_hash_chain_seed(&fill(48, 3), 7, 300); for i in 0..300 { for j in 0..i { assert!(v[i] != v[j], "{} {}", i, j); } } }''', 'more than 256 seeds of one chain (Rust)', 'hash-chain seeds repeat after 256 positions')
rseed('rust-address-third', 'C11', [(W + 'qrl/qrl_helper.rs', '\n            && address[36] == hashed_key2[29]', '')], r'''
fn main() {
    let mut pk = fill(67, 5); pk[0] = 1; pk[1] = 5; let a = get_address(&pk).unwrap(); assert!(address_is_valid(&a));
    for i in 0..39 { for b in 0..8 { let mut c = a.clone(); c[i] ^= 1 << b; assert!(!address_is_valid(&c), "byte {}", i); } }
}''', 'an address whose byte 36 was damaged (Rust)', 'one checksum byte is not compared')
rseed('rust-mnemonic-space', 'C12', [(W + 'qrl/misc.rs', 'let word_count = mnemonic.split_whitespace().count();', "let word_count = mnemonic.split(' ').count();")], r'''
fn main() {
    let b = fill(48, 8); let m = bin2mnemonic(&b).unwrap(); assert_eq!(mnemonic2bin(&m).unwrap(), b);
    let w: Vec<&str> = m.split(' ').take(3).collect(); for t in [w.join("  ").replacen("  ", " ", 1), w.join(" ") + " ", format!(" {}", w.join(" "))] { assert!(mnemonic2bin(&t).is_err(), "three words accepted: {:?}", t); }
}''', 'an odd number of words with one extra space between or around them (Rust)', 'an odd number of words is decoded instead of being refused')
rseed('rust-shake-block', 'C08', [(W + 'xmss_alt/fips202.rs', '''    while mlen >= r as u64 {
        for i in 0..(r / 8) {''', '''    while mlen >= r as u64 {
        for i in 0..(SHAKE256_RATE / 8) {''')], r'''
fn main() { // SHAKE128 over more than one block depends on every byte
    let m = fill(200, 4); let mut a = [0u8; 32]; fips202::shake128(&mut a, 32, &m, 200);
    for i in 0..200 { let mut n = m.clone(); n[i] ^= 4; let mut b = [0u8; 32]; fips202::shake128(&mut b, 32, &n, 200); assert!(a != b, "byte {} ignored", i); }
}''', 'SHAKE128 input of at least one full 168-byte block (Rust)', 'bytes 136..167 of every full SHAKE128 block are ignored')
rseed('rust-checksum-tail', 'C07', [(W + 'xmss_alt/wots.rs', '    for i in 0..params.len_1 as usize {\n        csum +=', '    for i in 0..params.len_1 as usize - 1 {\n        csum +='), (W + 'xmss_alt/wots.rs', '    for i in 0..XMSS_WOTS_LEN1 {\n        csum +=', '    for i in 0..XMSS_WOTS_LEN1 - 1 {\n        csum +=')], r'''
fn main() {
    let p = WOTSParams::new(32, 16); let (sk, ps) = (fill(32, 5), fill(32, 6)); let mut m = fill(32, 7); m[31] &= !3; let mut n = m.clone(); n[31] += 1;
    let (mut a, mut b) = (vec![0u8; p.keysize as usize], vec![0u8; p.keysize as usize]);
    wots_sign(&HashFunction::Shake128, &mut a, &m, &sk, &p, &ps, &mut [0; 8]); wots_sign(&HashFunction::Shake128, &mut b, &n, &sk, &p, &ps, &mut [0; 8]);
    assert!(a[64 * 32..] != b[64 * 32..], "checksum chains do not depend on the last digit");
}''', 'two digests that differ in the last digit only (Rust)', 'the WOTS+ checksum leaves out the last digit, so a signature can be moved to another digest')
rseed('rust-set-index-end', 'C05', [(W + 'xmss_alt/algsxmss_fast.rs', '    if new_idx >= num_elems {', '    if new_idx > num_elems {')], r'''
fn main() {
    let mut k = XMSSFast::new(fill(48, 1), 4, Some(HashFunction::Shake128), None, None).unwrap();
    for i in 0..16 { assert!(k.sign(&fill(5, i)).is_ok()); } assert_eq!(k.get_index(), 16); assert!(k.sign(&fill(5, 99)).is_err(), "an exhausted key signs");
}''', 'one more signature after the last (Rust fast key)', 'an exhausted Rust key signs once more, with an index that does not exist')
rseed('rust-verify-height', 'C06', [(W + 'qrl/xmss_base.rs', 'if height == 0 || desc.get_height() != height {', 'if height == 0 || desc.get_height() > height {')], r'''
fn main() {
    let mut k = XMSSBasic::new(fill(48, 9), 6, HashFunction::Shake256, AddrFormatType::SHA256_2X, None).unwrap(); let mut m = fill(9, 1); let s = k.sign(&m).unwrap(); let mut pk = k.get_pk();
    assert!(XMSSBase::verify(&mut m, &s, &pk, None).is_ok()); pk[1] = 2; assert!(XMSSBase::verify(&mut m, &s, &pk, None).is_err(), "height in the key ignored");
}''', 'a public key whose descriptor names a smaller height than the signature (Rust)', 'the height in the public key is not bound by verification')
seed('message-length-16', 'C01', [(A + 'algsxmss_fast.c', 'h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);', 'h_msg(hash_func, msg_h, msg, (uint16_t) msglen, hash_key, 3 * n, n);')], 'core', X + r'''
int main() {
  XmssFast k(fill(48, 1), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X); auto pk = k.getPK();
  for (size_t n : {0u, 100u, 65535u, 65536u, 70000u}) { auto m = fill(n, n); CHECK(XmssBase::verify(m, k.sign(m), pk)); }
  return 0;
}''', 'a message of 65536 bytes or more', 'a fast key signs only the first length mod 65536 bytes, so its signatures of long messages do not verify')
JS = r'''#include "jswrapper/jsqrlwrapper.cpp"
using verif_js::Val;
static Val call(const char *c, const char *n, void *o, std::vector<Val> a) { return verif_js::find(c, n)->call(o, a.data()); }
static std::string hex(const Bytes &b) { return bin2hstr(b); }
'''
J = 'src/jswrapper/jsqrlwrapper.cpp'
seed('js-address-tail', 'C18', [(J, 'return hstr2bin(address_str.substr(1));', 'return hstr2bin(address_str.substr(1, 2*(QRLDescriptor::getSize()+ADDRESS_HASH_SIZE+4)));')], 'js', JS + r'''
int main() {
    Bytes pk = fill(67, 3); pk[0] = 1; pk[1] = 5; std::string a = "Q" + hex(QRLHelper::getAddress(pk));
    CHECK(call("", "validateAddress", nullptr, {a}).i == 1);
    for (const char *t : {"00", "ff", "abcdef"}) CHECK(call("", "validateAddress", nullptr, {a + t}).i == 0);
    return 0;
}''', 'an address text with something appended to it', 'the JavaScript address check accepts a valid address followed by further digits')
seed('js-mnemonic-hash', 'C18', [(J, '''        auto extended_seed = mnemonic2bin(mnemonic);
        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);

        if (descr.getSignatureType() != eSignatureType::XMSS)
        {
            throw std::invalid_argument("Unsupported signature type");
        }

        auto raw_seed = std::vector<uint8_t>(
            extended_seed.cbegin()+QRLDescriptor::getSize(),
            extended_seed.cend()
        );

        return XmssWrapper(
            raw_seed,
            descr.getHeight(),
            descr.getHashFunction()
''', '''        auto extended_seed = mnemonic2bin(mnemonic);
        auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);

        if (descr.getSignatureType() != eSignatureType::XMSS)
        {
            throw std::invalid_argument("Unsupported signature type");
        }

        auto raw_seed = std::vector<uint8_t>(
            extended_seed.cbegin()+QRLDescriptor::getSize(),
            extended_seed.cend()
        );

        return XmssWrapper(
            raw_seed,
            descr.getHeight(),
            descr.getHashFunction() == eHashFunction::SHA2_256 ? eHashFunction::SHA2_256 : eHashFunction::SHAKE_128
''')], 'js', JS + r'''
int main() {
    for (int h = 0; h < 3; h++) {
        Val k = call("Xmss", "fromParameters", nullptr, {fill(48, h), 4, h}); Val m = call("Xmss", "getMnemonic", k.p, {});
        Val r = call("Xmss", "fromMnemonic", nullptr, {m}); CHECK(call("Xmss", "getAddress", r.p, {}).s == call("Xmss", "getAddress", k.p, {}).s);
    }
    return 0;
}''', 'a SHAKE-256 key restored from its mnemonic through the JavaScript interface', 'the restored key uses another hash function, hence another address')
P = W + 'qrl/xmss_pool.rs'
PPRE = 'use qrs::rust_wrapper::qrl::{xmss_pool::XMSSPool, hashing::sha2_256};\nfn want(s: &Vec<u8>, i: u128) -> Vec<u8> { let t = s.iter().map(|b| format!("{:02x}", b)).collect::<String>() + &(i + 1).to_string(); let mut d = sha2_256(&t.into_bytes()); let e = d[..16].to_vec(); d.extend(e); XMSSFast::new(d, 4, None, None, None).unwrap().get_pk() }\n'
rseed('rust-pool-index-32', 'C17', [(P, '&(index + 1).to_string()', '&((index as u32).wrapping_add(1)).to_string()')], PPRE + r'''
fn main() { for st in [0usize, 7, (1 << 32) - 2, 1 << 40] { let s = fill(48, 9); let mut p = XMSSPool::new(s.clone(), 4, st, 2).unwrap(); for i in 0..4u128 { assert!(p.get_next_tree().unwrap().get_pk() == want(&s, st as u128 + i), "{} {}", st, i); } } }''', 'a Rust pool started at an index of 2^32 or more', 'trees of different indices are the same')
rseed('rust-pool-empty', 'C17', [(P, '''            let answer = self.prepare_tree(self.current_index);
            self.current_index += 1;
''', '''            self.current_index += 1;
            let answer = self.prepare_tree(self.current_index);
''')], PPRE + r'''
fn main() { for c in [0usize, 1, 3] { let s = fill(48, 8); let mut p = XMSSPool::new(s.clone(), 4, 5, c).unwrap(); for i in 0..5u128 { assert!(p.get_next_tree().unwrap().get_pk() == want(&s, 5 + i), "{} {}", c, i); assert!(p.get_current_index() == 6 + i as usize); } } }''', 'a Rust pool without a cache', 'every tree is one index late, so the first is skipped')
seed('descr-format-bit', 'C10', [(Q + 'qrlDescriptor.h', '(bytes[1] & 0xF0) >> 4', '(bytes[1] & 0x70) >> 4')], 'core', X + r'''
int main() {
  for (int b0 = 0; b0 < 256; b0++) for (int b1 = 0; b1 < 256; b1++) {
    try { auto d = QRLDescriptor::fromBytes(Bytes{(unsigned char) b0, (unsigned char) b1, 0}); auto r = d.getBytes(); CHECK(r.size() == 3 && r[0] == b0 && r[1] == b1); } catch (std::invalid_argument &) {}
  }
  return 0;
}''', 'a descriptor whose address format is 8 or more', 'the top bit of the address format is lost in decoding: a descriptor of an unknown format passes for one of a known format')
HI = X + r'''#include "xmss-alt/algsxmss_fast.h"
struct St { bds_state s; xmss_params p; Bytes stack, lv, auth, keep, nodes, retain; std::vector<treehash_inst> th;
  St(unsigned h) : stack((h + 1) * 32), lv(h + 1), auth(h * 32), keep((h >> 1) * 32), nodes((h - 2) * 32), retain(32), th(h - 2) {
    for (unsigned i = 0; i < h - 2; i++) { th[i].h = i; th[i].next_idx = 0; th[i].stackusage = 0; th[i].completed = 1; th[i].node = &nodes[32 * i]; }
    xmss_set_params(&p, 32, h, 16, 2); xmss_set_bds_state(&s, stack.data(), 0, lv.data(), auth.data(), keep.data(), th.data(), retain.data(), 0); } };
static unsigned long idx(const Bytes &k) { return (unsigned long) k[0] << 24 | k[1] << 16 | k[2] << 8 | k[3]; }
static void put(Bytes &k, unsigned i) { k[0] = i >> 24; k[1] = i >> 16; k[2] = i >> 8; k[3] = i; }
'''
seed('index-top-byte', 'C05', [(A + 'algsxmss_fast.c', 'sk[0] = ((idx + 1) >> 24) & 255;', 'sk[0] = (idx >> 24) & 255;')], 'core', HI + r'''
int main() {
  for (unsigned i : {5u, 255u, 65535u, 0xffffffu, 0x1ffffffu}) {
    St t(26); Bytes k = fill(132, 3), sig(4 + 32 + 67 * 32 + 26 * 32), m = fill(5, 1); put(k, i);
    xmssfast_Signmsg(eHashFunction::SHAKE_128, &t.p, k.data(), &t.s, sig.data(), m.data(), m.size()); CHECK(idx(k) == i + 1);
  }
  return 0;
}''', 'a tree of height 26 or more reaching index 2^24', 'the index falls back to 0 after index 2^24 - 1, so every one-time key is used again')
seed('restart-16', 'C02', [(A + 'algsxmss_fast.c', '    unsigned int startidx;\n', '    uint16_t startidx;\n')], 'core', HI + r'''
int main() {
  for (unsigned i : {9u, 1001u, 70001u, 200001u}) {
    St t(18); Bytes k = fill(132, 3), sig(4 + 32 + 67 * 32 + 18 * 32), m = fill(5, 1); put(k, i);
    xmssfast_Signmsg(eHashFunction::SHA2_256, &t.p, k.data(), &t.s, sig.data(), m.data(), m.size()); CHECK(t.th[0].next_idx >= i);
  }
  return 0;
}''', 'a tree of height 18 or more signing past index 65532', 'the subtrees for coming authentication paths are rebuilt from leaves far behind, so signatures stop verifying')
rseed('rust-index-top', 'C05', [(W + 'xmss_alt/algsxmss_fast.rs', 'sk[0] = ((new_idx) >> 24) as u8 & 255;', 'sk[0] = ((new_idx) >> 24) as u8 & 15;')], r'''
use qrs::rust_wrapper::xmss_alt::{algsxmss_fast::*, xmss_common::XMSSParams};
fn main() {
    let p = XMSSParams::new(32, 30, 16, 2).ok().unwrap();
    for i in [5u32, 70000, 1 << 24, (1 << 28) + 5, (1 << 30) - 2] {
        let mut s = BDSState::default(); s.stack = vec![0; 31 * 32]; s.stacklevels = vec![0; 31]; s.auth = vec![0; 30 * 32]; s.keep = vec![0; 15 * 32]; s.retain = vec![0; 32];
        for _ in 0..28 { let mut t = TreeHashInst::default(); t.node = vec![0; 32]; s.treehash.push(t); }
        let mut sk = fill(132, 4); sk[..4].copy_from_slice(&i.to_be_bytes()); assert!(xmss_fast_update(&HashFunction::SHA2_256, &p, &mut sk, &mut s, i).is_ok());
        assert_eq!(u32::from_be_bytes([sk[0], sk[1], sk[2], sk[3]]), i);
    }
}''', 'a Rust fast key of height 30 at index 2^28 or more', 'setting the index drops its upper bits, so used one-time keys are used again')
rseed('rust-node-mask', 'C16', [(W + 'xmss_alt/hash.rs', '    set_key_and_mask(addr, 2);\n', '    set_key_and_mask(addr, 1);\n')], r'''
use qrs::rust_wrapper::xmss_alt::hash::*;
fn main() {
    for h in [HashFunction::SHA2_256, HashFunction::Shake128, HashFunction::Shake256] {
        let (i, ps) = (fill(64, 3), fill(32, 4)); let mut a = [0u32, 0, 0, 2, 0, 3, 5, 0]; let mut o = vec![0u8; 32]; hash_h(&h, &mut o, &i, &ps, &mut a, 32);
        let part = |k: u32| { let mut b = vec![0u8; 32]; let mut c = a; c[7] = k; for (j, w) in c.iter().enumerate() { b[4 * j..4 * j + 4].copy_from_slice(&w.to_be_bytes()); } let mut o = vec![0u8; 32]; prf(&h, &mut o, &b, &ps, 32); o };
        let mut m = part(1); m.extend(part(2)); let x: Vec<u8> = i.iter().zip(&m).map(|(a, b)| a ^ b).collect(); let mut e = vec![0u8; 32]; core_hash(&h, &mut e, 1, &part(0), 32, &x, 64, 32); assert_eq!(o, e);
    }
}''', 'keys or signatures exchanged between the Rust and the C++ library (Rust alone stays consistent)', 'both halves of a tree node are masked alike, so roots and signatures differ from the C++ library and the documented construction')
