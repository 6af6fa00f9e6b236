#!/usr/bin/env python3
# Writes known_findings.txt: fixed entries name the /repo commit that repaired each genuine defect.
import subprocess
L = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
H = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in L}
def c(sub):
    r = [h for s, h in H.items() if sub in s]; assert len(r) == 1, (sub, r); return r[0]
F = [
 ('C10', 'signature type nibble', 'fromBytes masked the signature-type nibble away ((b >> 4) & 0xF0), C++ and Rust: a descriptor naming another scheme decoded as XMSS'),
 ('C06', 'signature type nibble', 'verify accepted public keys whose descriptor names another signature scheme'),
 ('C07', 'high byte of the WOTS+ checksum', 'w = 256: checksum shifted left by 8 and its high byte dropped, C++ and Rust'),
 ('C04', 'high byte of the WOTS+ checksum', 'w = 256 signatures differ from the documented construction'),
 ('C06', 'whole trees on the stack', 'a multi-megabyte message overflows the stack in verify (variable-length array in core_hash)'),
 ('C05', 'exhausted plain XMSS key', 'XmssBasic::sign past the last index reads outside its tree and returns a signature; the Rust port panics'),
 ('C06', 'unknown hash functions', 'public key / key with hash nibble 3..15: core_hash writes nothing, verdict and key depend on uninitialised stack'),
 ('C06', 'heights the descriptor cannot', 'heights 32..254 accepted by constructors: 1 << height overflows, broken key'),
 ('C08', 'long SHAKE input in Rust', 'keccak_absorb (Rust) re-reads the start of the input after the first block, panics from two blocks on'),
 ('C12', 'words of a mnemonic', 'mnemonic2bin (C++) counted spaces: odd word counts accepted with extra separators, "" refused'),
 ('C15', 'buffer sizes before calling', 'Dilithium/Kyber wrappers (C++) passed short keys, ciphertexts and signed messages to the primitives'),
 ('C15', 'signed message at the end', 'Rust Dilithium::extract_message / extract_signature split at the wrong end'),
 ('C15', 'wrongly sized keys instead', 'Rust Kyber::new panics on keys of a wrong size'),
 ('C18', 'decode the signed message once', 'JavaScript extract_message assigns from iterators into two different temporaries: any signed message throws or reads out of bounds'),
 ('C18', 'unknown signature scheme in the JavaScript', 'JavaScript fromHexSeed / fromMnemonic turn an extended seed naming another signature scheme into an XMSS key'),
]
with open('/verif/known_findings.txt', 'w') as f:
    f.write('# known: property=<id> job=<regex> id=<regex> <what fails>   (none at present)\n# fixed: property=<id> <commit> <what failed>\n')
    for p, s, t in F: f.write(f'fixed: property={p} {c(s)} {t}\n')
