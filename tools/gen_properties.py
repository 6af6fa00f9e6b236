#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only for readable diffs).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Every signature produced by an XMSS key verifies under its public key",
"For every seed, every message and every not-yet-used index, the signature returned by an XMSS key object (plain or fast tree, any supported hash function and Winternitz parameter) is accepted by verification against that object's public key with the same Winternitz parameter. The signature has exactly the advertised size.",
["inputs","configurations"],"all 48-byte seeds, all messages up to the stated lengths, all indices of the tree heights in the bound, hash function in {SHA2-256, SHAKE128, SHAKE256}, w in {4,16,256}, both signers",
"Tests sign a handful of fixed messages with fixed seeds; whether signing succeeds depends on the message digest's base-w digits (2^256 of them) and on the index, and only a few are ever sampled.",
["src/xmss-alt/wots.c","src/xmss-alt/algsxmss.c","src/xmss-alt/algsxmss_fast.c","src/xmss-alt/xmss_common.c","src/qrl/xmssBase.cpp","src/qrl/xmssBasic.cpp","src/qrl/xmssFast.cpp"],
[("wots_sign / wots_pkFromSig complete each other's chains","src/xmss-alt/wots.c"),("authentication path produced by compute_authpath_wots / BDS and consumed by validate_authpath","src/xmss-alt/xmss_common.c")],
[("_sk","index, seeds and root of the key","src/qrl/xmssBase.h")],["XmssBase::sign","XmssBase::verify"])

p("C02","Fast tree traversal always equals the full tree",
"For every seed, the fast signer has the same public key as the plain signer, and after any legal history of signing and forward index jumps the authentication path it emits is the true sibling path of the index it emits, for every index up to and including the last one. Any two histories that reach the same index produce byte-identical signatures of the same message.",
["histories","inputs"],"every sequence of sign / advance-index steps through a tree of the bounded heights, all seeds; hash outputs arbitrary",
"The incremental traversal state depends on the whole history; the comparison test samples one height with fixed seeds and mostly steps one by one, and skips over most (from,to) index pairs.",
["src/xmss-alt/algsxmss_fast.c","src/qrl/xmssFast.cpp"],
[("bds_round / bds_treehash_update / treehash_setup","src/xmss-alt/algsxmss_fast.c"),("xmssfast_update replays the rounds it skips","src/xmss-alt/algsxmss_fast.c")],
[("bds_state","stack, auth, keep, treehash and retain nodes","src/xmss-alt/algsxmss_fast.h")],["XmssFast::sign","XmssFast::setIndex","XmssBase::getRoot"])

p("C03","Verification binds the whole message, index, randomiser, path and public key",
"An accepted signature stops being accepted when any single part of it is changed: the message (any byte, or its length), the signature's index, its randomiser, any WOTS chain value, any authentication-path node, or the public key's descriptor-encoded hash function or height, root or public seed, unless the change yields a collision of the underlying hash function. The verdict is computed from the recomputed root only: acceptance implies all 32 root bytes match.",
["inputs"],"all public keys, signatures and messages of the bounded sizes, all alternatives for the changed part",
"Tests corrupt a few chosen bytes; a verifier that ignores one byte of one chain, one bit of the index or a suffix of the message passes them all.",
["src/xmss-alt/xmss_common.c","src/xmss-alt/wots.c","src/xmss-alt/hash.c","src/qrl/xmssBase.cpp"],
[("xmss_Verifysig recomputes the root from every signature field","src/xmss-alt/xmss_common.c"),("h_msg key R||root||idx","src/xmss-alt/hash.c")],
(),["XmssBase::verify"])

p("C04","Keys and signatures are exactly the documented XMSS construction",
"For every seed the secret and public key, and for every message and index the signature (index, randomiser, WOTS+ chains, authentication path), are byte for byte those of the XMSS construction the library documents: seeds expanded with SHAKE256, the message digest keyed by randomiser, root and index, and every tree, L-tree and chain hash keyed and masked from the public seed at its own address. Verification recomputes the root by the same construction for any signature, whether genuine or not.",
["inputs","configurations"],"all seeds, all messages up to the stated length, all indices of the bounded heights, all three hash functions, w in {4,16,256}",
"A self-consistent but different (for example weaker) construction passes every round-trip test, and known-answer tests pin a few points only; interoperability and the security argument need equality everywhere.",
["src/xmss-alt/algsxmss.c","src/xmss-alt/algsxmss_fast.c","src/xmss-alt/wots.c","src/xmss-alt/hash.c","src/xmss-alt/hash_address.c","src/xmss-alt/xmss_common.c"],
[("address structure and keyed hash","src/xmss-alt/hash_address.c"),("L-tree and WOTS+ chains","src/xmss-alt/wots.c")],
[("secret key layout","idx4|sk_seed32|sk_prf32|pub_seed32|root32","src/qrl/xmssBase.cpp")],["XmssBase::getSK","XmssBase::getPK","XmssBase::sign"])

p("C05","A one-time key is never used twice and an exhausted key refuses to sign",
"Each signature carries the index the key object reported immediately before signing, and signing advances the index by exactly one; moving the index of a fast key backwards or past the end is refused with an error and changes nothing. After the last index has been used, every further attempt to sign fails with an error, returns no signature, and touches no memory outside the key, for plain and fast keys alike.",
["histories","inputs"],"every sequence of sign and set-index calls (all 32-bit index arguments) of the bounded length on every seed",
"Tests walk a few short histories and never the exhausted state of both signers; reuse of a one-time key reveals signing secrets, so the guarantee has to hold for all histories.",
["src/xmss-alt/algsxmss_fast.c","src/xmss-alt/algsxmss.c","src/qrl/xmssFast.cpp","src/qrl/xmssBasic.cpp","src/qrl/xmssBase.cpp"],
[("xmssfast_update range checks","src/xmss-alt/algsxmss_fast.c"),("index advance inside xmss_Signmsg / xmssfast_Signmsg","src/xmss-alt/algsxmss.c")],
[("_sk[0..3]","big-endian next index","src/qrl/xmssBase.cpp")],["getIndex","getRemainingSignatures","sign","setIndex"])

p("C06","Untrusted input to verification and key import is rejected safely",
"For every public key, message and signature of any content and any size, verification returns true or false: it never throws, never reads or writes outside its buffers, and never lets uninitialised data influence its answer. A public key that is not 67 bytes, names an unknown hash function or signature scheme, or whose height disagrees with the signature's size is always rejected; constructing a key from a seed or extended seed of the wrong size, or an unsupported height or hash function, throws instead of producing a key.",
["inputs"],"all public-key and signature contents, sizes around every boundary, all descriptors, all heights 0..255",
"Malformed sizes and descriptors form a huge space; tests try fewer than ten, and the reads at fault are invisible without symbolic bounds or initialisation tracking.",
["src/qrl/xmssBase.cpp","src/qrl/qrlDescriptor.h","src/xmss-alt/xmss_common.c","src/xmss-alt/hash.c","src/qrl/xmssFast.cpp","src/qrl/xmssBasic.cpp"],
[("size and descriptor checks in XmssBase::verify and constructors","src/qrl/xmssBase.cpp")],
(),["XmssBase::verify","constructors"])

p("C07","WOTS+ digit encoding is faithful and no digest dominates another",
"For every Winternitz parameter and every pair of different message digests, at least one WOTS+ chain position revealed for the second is strictly smaller than for the first, so a signature on one digest never yields a signature on another. Every bit of the digest and of its checksum determines some revealed chain position, and every position lies within the chain.",
["inputs","configurations"],"all pairs of 256-bit digests, w in {4,16,256}",
"Breaking the checksum leaves all sign-then-verify tests green; only a quantification over pairs of digests can see the forgery.",
["src/xmss-alt/wots.c","src/rust_wrapper/xmss_alt/wots.rs"],
[("base_w and the checksum in wots_sign / wots_pkFromSig","src/xmss-alt/wots.c")],
(),["chain positions observed in signatures"])

p("C08","SHAKE128 and SHAKE256 are FIPS 202 for every input and output length",
"In both the C++ and the Rust implementation, SHAKE128 and SHAKE256 return exactly the FIPS 202 output for every input byte string and output length, including inputs and outputs that end at, just before, just after, and several blocks beyond the sponge rate. No byte of the input is ignored and no call reads or writes outside its buffers.",
["inputs"],"all contents of inputs whose lengths cover every residue class of the rate with 0 to 2 full blocks (stated set), outputs up to 3 blocks",
"Known-answer tests use two or three short strings; block-boundary handling is only visible at lengths they never use and for contents they never try.",
["src/xmss-alt/fips202.c","src/rust_wrapper/xmss_alt/fips202.rs"],
[("keccak_absorb / KeccakF1600_StatePermute / keccak_squeezeblocks","src/xmss-alt/fips202.c")],
(),["shake128","shake256"])

p("C09","Keyed hash functions are domain separated and cover all their input",
"The pseudorandom function, chain hash, tree hash and message hash feed the selected primitive with the 32-byte domain tag of their role, the entire key and the entire input, for every hash function; two calls that differ in role, key, or any input byte never hash the same string. The C++ and the Rust library agree on the hashed string, and an unsupported combination is reported instead of returning unwritten output.",
["inputs","configurations"],"all keys, inputs, addresses and message lengths in the bound, all three hash functions, C++ and Rust",
"A truncated key or input or a wrong domain tag is self-consistent between signer and verifier, so round-trip tests cannot notice.",
["src/xmss-alt/hash.c","src/xmss-alt/hash_address.c","src/rust_wrapper/xmss_alt/hash.rs","src/shasha/shasha.cpp"],
[("core_hash buffer layout","src/xmss-alt/hash.c"),("hash_f / hash_h masks","src/xmss-alt/hash.c")],
(),["prf","h_msg","hash_f","hash_h"])

p("C10","Descriptor, extended seed and extended public key encode and decode faithfully",
"Encoding a key's hash function, signature scheme, height and address format into the 3-byte descriptor and decoding it again yields the same values for every value the format can represent, and decoding bytes and encoding them again restores every meaningful bit; C++ and Rust agree. A key rebuilt from its extended seed has the same keys, descriptor and address as the original, and the extended public key and seed consist of exactly descriptor, root and public seed, respectively descriptor and seed.",
["inputs"],"all descriptor byte strings, all in-range field values, all seeds",
"Three descriptor values are tested; field overlap or a dropped bit shows only for the other combinations.",
["src/qrl/qrlDescriptor.h","src/qrl/xmssBase.cpp","src/rust_wrapper/qrl/qrl_descriptor.rs"],
[("QRLDescriptor::fromBytes / getBytes","src/qrl/qrlDescriptor.h"),("extended seed constructor","src/qrl/xmssBase.cpp")],
(),["getBytes","fromBytes","getExtendedSeed","getPK"])

p("C11","Addresses bind the whole public key; validation accepts only true checksums",
"The address of a public key is its descriptor, the SHA-256 of the whole extended public key and the last four bytes of the SHA-256 of those 35 bytes; every address so derived is accepted by address validation. Validation accepts a byte string if and only if it has 39 bytes, a descriptor of the supported address format (in Rust also a decodable one) and a correct 4-byte checksum; it never throws or reads out of bounds on any input.",
["inputs"],"all 67-byte public keys, all candidate addresses of length 0..80",
"Two or three fixed addresses are tested; a validator that skips a checksum byte or a hash that skips key bytes passes them.",
["src/qrl/qrlHelper.h","src/rust_wrapper/qrl/qrl_helper.rs"],
[("QRLHelper::getAddress / addressIsValid","src/qrl/qrlHelper.h")],
(),["getAddress","addressIsValid"])

p("C12","Mnemonics and hex strings round-trip and reject everything else",
"Every byte string whose length is a multiple of three is restored exactly from its mnemonic, every byte string is restored exactly from its hex form (unwrapped), and decoding is the inverse on every valid text. Text that is not a sequence of an even number of dictionary words, or not an even number of hex digits, is refused with an error; distinct byte strings never share a mnemonic because the 4096 dictionary words are distinct and free of separators, and identical in C++ and Rust.",
["inputs"],"all byte strings up to the stated length, all texts up to the stated length",
"Tests round-trip a few fixed seeds: one duplicated or altered word among 4096, or one lost nibble, is invisible to them and makes a wallet unrecoverable.",
["src/qrl/misc.cpp","src/qrl/wordlist.cpp","src/rust_wrapper/qrl/misc.rs","src/rust_wrapper/qrl/wordlist.rs"],
[("bin2mnemonic / mnemonic2bin / bin2hstr / hstr2bin","src/qrl/misc.cpp")],
(),["bin2mnemonic","mnemonic2bin","bin2hstr","hstr2bin"])

p("C13","The tree pool issues every index exactly once under concurrency",
"For any number of concurrent callers and any schedule, the (C++) tree pool hands out trees of consecutive indices starting at its starting index, each exactly once, and its reported index equals the starting index plus the number issued; no schedule deadlocks, races on shared state or consumes a future twice. The tree issued for index i is the key of the seed derived from the base seed and i by SHAKE256 over the base seed followed by the little-endian minimal encoding of i+1, so distinct indices never share a derivation input.",
["schedules","inputs","configurations"],"interleavings of up to 3 callers at lock, future and thread boundaries with up to 4 deviations from a run-to-block schedule, pool sizes 0..3, starting indices and base seeds as stated per job",
"The pool test is sequential; a lost lock or a double issue needs a particular interleaving.",
["src/qrl/xmssPool.cpp","src/qrl/xmssPool.h"],
[("_mutex guards _cache and _current_index","src/qrl/xmssPool.cpp")],
[("_current_index","next index to issue","src/qrl/xmssPool.h"),("_cache","futures of prepared trees","src/qrl/xmssPool.h")],["getNextTree","isAvailable","getCurrentIndex"])

p("C14","Hash helpers and hash-chain seeds hash exactly what they are documented to hash",
"The vector hash helpers hash the entire input and return exactly the requested number of bytes; the iterated SHA-256 applies the hash exactly the requested number of times and refuses zero. Hash-chain seeds are the 32-byte SHAKE256 of the seed followed by the little-endian shift and the little-endian position, so no two (shift, position) pairs share an input, and a random seed of a requested size is derived from that many fresh system-random bytes together with all the caller's entropy.",
["inputs"],"all inputs up to the stated length, all 32-bit shifts, counts up to the bound, all entropy strings up to the bound",
"Tests pin a few outputs at small shifts and positions; dropped high bytes collide only for values they do not use.",
["src/qrl/hashing.cpp","src/qrl/misc.cpp","src/rust_wrapper/qrl/hashing.rs","src/rust_wrapper/qrl/misc.rs"],
[("getHashChainSeed, getRandomSeed, sha2_256_n","src/qrl/misc.cpp")],
(),["shake128","shake256","sha2_256","sha2_256_n","getHashChainSeed","getRandomSeed"])

p("C15","Post-quantum wrappers hand the primitives exactly sized buffers",
"For every input of any size, the Dilithium and Kyber wrapper objects call the underlying primitive only with key, message, signature and ciphertext buffers of the full size it needs and report its verdict unchanged; wrongly sized keys, signed messages or ciphertexts are refused and never read out of bounds. Splitting a signed message returns exactly its signature part and its message part, in C++ and Rust alike.",
["inputs"],"all buffer sizes up to the stated bound around each boundary, all contents, arbitrary primitive results",
"The wrappers' tests use correctly sized buffers only, and memory over-reads do not fail a test.",
["src/dilithium/dilithium.cpp","src/kyber/kyber.cpp","src/rust_wrapper/dilithium/dilithium.rs","src/rust_wrapper/kyber/kyber.rs"],
[("wrapper constructors and calls","src/dilithium/dilithium.cpp")],
(),["Dilithium::sign_open","Kyber::kem_decode"])

p("C16","The Rust library computes the same keys, signatures and verdicts as C++",
"For every seed, index and message, the Rust implementation derives the same secret key, root, public key, address and signature bytes as the C++ implementation, and for every message, signature and public key the two verifiers give the same verdict. A Rust fast key follows the same index discipline: forward only, one step per signature, an error after the last.",
["inputs","histories","configurations"],"all seeds, messages and indices in the bound, all three hash functions; hash primitives arbitrary but common",
"The two implementations are tested against separate fixed vectors only; a divergence elsewhere makes wallets on one unverifiable by the other.",
["src/rust_wrapper/xmss_alt/algsxmss.rs","src/rust_wrapper/xmss_alt/algsxmss_fast.rs","src/rust_wrapper/xmss_alt/wots.rs","src/rust_wrapper/xmss_alt/xmss_common.rs","src/rust_wrapper/qrl/xmss_base.rs","src/rust_wrapper/qrl/xmss_fast.rs","src/rust_wrapper/qrl/xmss_basic.rs"],
[("line-by-line port of the C++ algorithms","src/rust_wrapper/xmss_alt")],
(),["XMSSFast / XMSSBasic / XMSSBase::verify (Rust)"])

p("C17","The Rust tree pool issues consecutive trees with the documented derivation",
"The Rust tree pool returns the trees of consecutive indices beginning at its starting index, each exactly once and unused, whatever the cache size; its reported index equals the starting index plus the number issued. The tree of index i is the fast key of the 48-byte seed made of the SHA-256 of the base seed's hex text followed by the decimal text of i+1, extended by its own first 16 bytes, so distinct indices never share a derivation input; a tree that cannot be made is reported as an error.",
["inputs","histories","configurations"],"base seeds of 0, 1, 48 and 51 bytes with any content, 15 starting indices around decimal and binary boundaries up to 2^63, cache sizes 0..5, up to 4 trees; the thread pool and channels of the absent crates are sequential stand-ins (ThreadPool::install blocks)",
"There is one test with one seed, one start and one cache size; an index skipped or reused when the cache runs dry, or two indices sharing a seed, does not show there.",
["src/rust_wrapper/qrl/xmss_pool.rs"],
[("fill_cache and get_next_tree advance current_index together","src/rust_wrapper/qrl/xmss_pool.rs")],
[("current_index","next index to issue","src/rust_wrapper/qrl/xmss_pool.rs"),("cache","receivers of prepared trees","src/rust_wrapper/qrl/xmss_pool.rs")],["XMSSPool::get_next_tree","XMSSPool::get_current_index","XMSSPool::is_available"])

p("C18","The JavaScript interface describes, restores and uses keys exactly",
"For every key created through the JavaScript wrapper, the exported public key, address, hex seed and mnemonic are the textual forms of the key's own, and a key restored from that hex seed or mnemonic is the same key: same public key, address, and signature at every index. The address text it exports passes its address validation, whose answer on any text is that of validating the decoded bytes, and the descriptor accessors report what the address encodes. Each exported function or method gives the result of the library function it is named after; text of the wrong size, with non-hex characters, or naming an unsupported key is refused with an exception; the Dilithium and Kyber objects take and return the hex form of exactly the bytes the native objects use.",
["inputs","configurations"],"any seed at heights 4 and 6, every index, three hash functions; any 51-byte extended seed as hex or mnemonic naming a height below 6 with address format 0; texts of the listed sizes with any characters; post-quantum buffers symbolic in part; called through a stand-in of Emscripten's binding layer",
"The JavaScript wrapper has no tests that run here; wallets restore funds through it.",
["src/jswrapper/jsqrlwrapper.cpp","src/jswrapper/jsdilwrapper.cpp","src/jswrapper/jskybwrapper.cpp"],
[("fromHexSeed / fromMnemonic rebuild the key from descriptor and seed","src/jswrapper/jsqrlwrapper.cpp")],
(),["Xmss.fromHexSeed","Xmss.fromMnemonic","validateAddress","Dilithium.extract_message","Kyber.kem_encode"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
