# Job tables: one entry per solver run.  HF: 0 SHA2-256, 1 SHAKE128, 2 SHAKE256
JOBS = {}; PAR = {}; ASSUME = {}; TECH = {}; NOTE = {}; NOT_APPLICABLE = {}
Q = ('quick', 'thorough'); TH = ('thorough',)
CORE = ['core', 'hash']
HFN = ['sha2', 'shake128', 'shake256']
def add(prop, name, src, groups, bounds, tiers=Q, **kw):
    d = dict(name=name, src=src, groups=groups, bounds=bounds, tiers=tiers); d.update(kw); JOBS.setdefault(prop, []).append(d)
ASSUME['*'] = [
    'clang-18 -O1 lowers the C++ sources to LLVM IR faithfully; llsym executes that IR (x86-64 layout, allocation never fails)',
    'the hash primitive (SHA-256, SHAKE) is an uninterpreted function except in C08; equality of two hash values is decided from equality of their inputs',
    'bounds are those listed per job under samples[].bounds; sizes, heights and call counts outside them are not claimed',
]
# ---- C01
for hf in range(3):
    for fast in (0, 1):
        add('C01', f'{"fast" if fast else "basic"}-{HFN[hf]}-w16-h4', 'c01.cpp', CORE, 'seed 48 symbolic bytes, message 5 symbolic bytes, height 4, w 16, every index 0..15', defs=dict(HF=hf, W=16, H=4, MLEN=5, FAST=fast), time=200)
add('C01', 'basic-sha2-w4-h4', 'c01.cpp', CORE, 'height 4, w 4, every index', defs=dict(HF=0, W=4, H=4, MLEN=3, FAST=0), time=200)
for hf, fast, lens in [(0, 1, '0,1,31,32,33,64,127,200'), (1, 0, '100,135,136,137'), (2, 1, '255,256,257,1000,4096,65535,65536,70000')]:
    add('C01', f'lengths-{HFN[hf]}-{"fast" if fast else "basic"}', 'c01.cpp', CORE, f'height 4, w 16, consecutive signatures of messages of {lens} bytes, any content', Q, defs=dict(HF=hf, W=16, H=4, MLEN=1, MODE=1, LENS=lens, FAST=fast), time=250, mem=9000)
for hf, w, h, lo, hi in [(2, 256, 4, 0, 15), (0, 256, 6, 60, 63), (1, 4, 6, 30, 33)]:
    add('C01', f'chains-{HFN[hf]}-w{w}-h{h}', 'c01.cpp', CORE, f'height {h}, w {w}, plain key, indices {lo}..{hi} in order; chain values abstracted as secret and position', Q, defs=dict(HF=hf, W=w, H=h, MLEN=3, MODE=3, FAST=0, FIRST=lo, LAST=hi), redirect={'expand_seed': 'model_expand_seed', 'gen_chain': 'model_gen_chain'}, noinline=True, time=250, vruns=1, ntime=120, mem=9000)
RED1 = {f: 'model_' + f for f in ('wots_pkgen', 'l_tree', 'wots_sign', 'wots_pkFromSig')}
for hf, h, fast, lo, hi in [(0, 6, 1, 0, 63), (1, 8, 1, 0, 255), (2, 10, 1, 0, 1023), (0, 6, 0, 28, 40), (1, 8, 0, 126, 130), (1, 12, 1, 2030, 2070)]:
    add('C01', f'tall-{HFN[hf]}-{"fast" if fast else "basic"}-h{h}', 'c01.cpp', CORE, f'height {h}, w 16, every index {lo}..{hi} in order, symbolic seed and 3-byte messages; WOTS+ and L-tree abstracted by a correct one-time signature', Q, defs=dict(HF=hf, W=16, H=h, MLEN=3, MODE=2, FAST=fast, FIRST=lo, LAST=hi), redirect=RED1, time=250, vruns=1 if h < 8 else 0)
# ---- C02
RED = {'wots_pkgen': 'model_wots_pkgen', 'l_tree': 'model_l_tree', 'wots_sign': 'model_wots_sign'}
for hf, h, tr, vr in [(1, 4, Q, 3), (0, 6, Q, 2), (2, 8, Q, 1), (0, 10, Q, 0), (1, 12, Q, 0), (2, 14, Q, 0), (0, 16, TH, 0)]:
    add('C02', f'hist-h{h}', 'c02.cpp', CORE, f'height {h}, {HFN[hf]}: every sign/skip history of all {1 << h} indices, symbolic seed and 3-byte message; WOTS key, L-tree and WOTS signature abstracted as uninterpreted functions', tr, defs=dict(HF=hf, H=h, MODE=0), redirect=RED, time=400 if h < 16 else 3000, vruns=vr, mem=4500 if h < 14 else 7000 if h < 16 else 16000)
add('C02', 'jump-h4', 'c02.cpp', CORE, 'height 4: jump to any index, sign, jump to any later index, sign up to three times (same abstraction)', Q, defs=dict(HF=1, H=4, MODE=1, LO=0, HI=15), redirect=RED, time=200)
for lo, hi in [(0, 3), (20, 22), (30, 33), (46, 49), (60, 63)]:
    add('C02', f'jump-h6-{lo}-{hi}', 'c02.cpp', CORE, f'height 6: first jump to {lo}..{hi}, second to any later index (same abstraction)', Q, defs=dict(HF=0, H=6, MODE=1, LO=lo, HI=hi), redirect=RED, time=200, vruns=1)
add('C02', 'points-h10', 'c02.cpp', CORE, 'height 10: one jump from 0 to 33 chosen indices, then two signatures', Q, defs=dict(HF=2, H=10, MODE=3, N=32), redirect=RED, time=200, vruns=0)
add('C02', 'sign-h4', 'c02.cpp', CORE, 'height 4, real WOTS and L-tree, all 16 signatures in sequence', Q, defs=dict(HF=1, H=4, MODE=2, N=16), time=250)
add('C02', 'jump-h6', 'c02.cpp', CORE, 'height 6: any two jumps (same abstraction)', TH, defs=dict(HF=1, H=6, MODE=1, LO=0, HI=63), redirect=RED, time=900)
add('C02', 'sign-h6', 'c02.cpp', CORE, 'height 6, real WOTS and L-tree, all 64 signatures', TH, defs=dict(HF=2, H=6, MODE=2, N=64), time=2000, mem=9000)
for lo in range(0, 256, 32):
    add('C02', f'jump-h8-{lo}', 'c02.cpp', CORE, f'height 8: first jump to {lo}..{lo + 7}, second anywhere later (same abstraction)', TH, defs=dict(HF=1, H=8, MODE=1, LO=lo, HI=lo + 7), redirect=RED, time=3000, vruns=0)
add('C02', 'plain-h4', 'c02.cpp', CORE, 'height 4: fast and plain signer, any index (same abstraction)', Q, defs=dict(HF=2, H=4, MODE=4, LO=0, HI=15), redirect=RED, time=200)
add('C02', 'plain-h6', 'c02.cpp', CORE, 'height 6: fast and plain signer, indices 28..36 and below (same abstraction)', Q, defs=dict(HF=1, H=6, MODE=4, LO=28, HI=36), redirect=RED, time=200, vruns=1)
for hi, lo, to in [(0, 0, 2), (1, 0, 3), (3, 0, 3), (3, 4, 9), (0, 10, 16), (1, 12, 22), (2, 16, 24), (3, 10, 28)]: add('C02', f'step-h{[18, 24, 26, 30][hi]}-{lo}', 'c05h.cpp', CORE, f'fast key internals, height {[18, 24, 26, 30][hi]}: one real traversal step from any index ending in {lo}..{to} one bits and any traversal state whose subtrees are ready; WOTS key, L-tree and WOTS signature abstracted', Q, defs=dict(HF=hi % 3, MODE=2, HI=hi, LO=lo, TO=to), redirect=RED, noinline=True, time=280)
# ---- C03
PARTS = ['message', 'length', 'index', 'randomiser', 'chains', 'authpath', 'hashfn', 'height', 'root', 'seed']
for part, nm in enumerate(PARTS):
    for hf, w, h, idx, ml, tr in [(part % 3, 16, 4, 6, 3, Q), ((part + 1) % 3, 16, 10, 0x2a5, 40, Q), ((part + 2) % 3, 4, 6, 63, 1, Q)] + [(hf, w, h, i, 200, TH) for hf in range(3) for w, h, i in [(16, 4, 0), (16, 4, 15), (256, 4, 9), (16, 12, 0xabc), (16, 30, 0x15555555)]]:
        if part == 2 and h > 12: continue
        add('C03', f'{nm}-{HFN[hf]}-w{w}-h{h}-i{idx}', 'c03.cpp', CORE, f'height {h}, w {w}: every accepted triple with a {ml}-byte message and index {idx}; any change of the {nm}' + (' (to any index; bits below the height over 8 patterns or all 16)' if part == 2 else ''), tr, defs=dict(HF=hf, W=w, H=h, MLEN=ml, PART=part, LO=idx, HI=idx, NP=16 if h == 4 else 8), redirect={'wots_pkFromSig': 'model_wots_pkFromSig'}, flags=['--injective'], time=200 if tr == Q else 1500, vruns=2 if h < 10 else 0, reach=['end', 'accepted'])
for hf, w, h, np in [(1, 16, 4, 4), (0, 16, 6, 2), (2, 16, 10, 2)]:
    add('C03', f'verdict-{HFN[hf]}-w{w}-h{h}', 'c04.cpp', CORE, f'height {h}, w {w}: arbitrary signature, public key and message: accepted exactly when all 32 bytes of the recomputed root match ({np} left/right patterns)', Q, defs=dict(HF=hf, W=w, H=h, FAST=0, LO=0, HI=0, MLEN=5, MODE=1, NP=np), time=250, vruns=2)
# ---- C04
for hf, w, h, fast, lo, hi in [(0, 16, 4, 0, 0, 0), (1, 16, 4, 0, 5, 5), (2, 16, 4, 0, 15, 15), (1, 4, 4, 0, 2, 2), (2, 4, 4, 0, 9, 9), (0, 16, 4, 1, 6, 6), (1, 16, 4, 1, 0, 0), (2, 16, 4, 1, 15, 15)]:
    add('C04', f'{"fast" if fast else "plain"}-{HFN[hf]}-w{w}-h{h}-i{lo}', 'c04.cpp', CORE, f'height {h}, w {w}, index {lo}..{hi}, 48 symbolic seed bytes, 5 symbolic message bytes: secret key, public key, signature', Q, defs=dict(HF=hf, W=w, H=h, FAST=fast, LO=lo, HI=hi, MLEN=5, MODE=0), time=200, vruns=2)
for hf, w, h, np in [(0, 16, 4, 0), (1, 16, 6, 8), (2, 16, 10, 8), (1, 4, 4, 4), (0, 16, 20, 8), (1, 16, 30, 8)]:
    add('C04', f'verify-{HFN[hf]}-w{w}-h{h}-{np}', 'c04.cpp', CORE, f'height {h}, w {w}: arbitrary signature bytes (24-bit index included, {"all" if not np else np} left/right patterns), public key and message: verify accepts exactly when the recomputed root matches', Q, defs=dict(HF=hf, W=w, H=h, FAST=0, LO=0, HI=0, MLEN=5, MODE=1, NP=np), time=200, vruns=2)
# ---- C05
for hf, h, lo, hi, jump, tr in [(0, 4, 0, 16, 1, Q), (1, 6, 0, 64, 0, Q), (2, 8, 250, 256, 1, Q), (1, 6, 0, 64, 1, TH), (2, 10, 1016, 1024, 1, TH)]:
    add('C05', f'refuse-h{h}{"" if jump else "-stay"}-{lo}-{hi}', 'c05.cpp', CORE, f'fast key, height {h}: position {lo}..{hi} (2^h = exhausted), any illegal 32-bit index, then {"any legal jump" if jump else "stay"} and two signatures', tr, defs=dict(HF=hf, H=h, MODE=0, LO=lo, HI=hi, JUMP=jump), redirect=RED, time=250 if tr == Q else 2500, vruns=2)
for hf, h, lo, hi, tr in [(1, 4, 0, 15, Q), (0, 6, 40, 63, Q), (2, 10, 1019, 1023, Q), (0, 12, 4092, 4095, TH)]:
    add('C05', f'exhaust-fast-h{h}', 'c05.cpp', CORE, f'fast key, height {h}: sign from index {lo}..{hi} to the last, then refuse', tr, defs=dict(HF=hf, H=h, MODE=1, LO=lo, HI=hi), redirect=RED, time=250 if tr == Q else 2500, vruns=1)
for hf, h, lo, hi, tr in [(2, 4, 0, 15, Q), (1, 6, 56, 63, Q), (0, 8, 252, 255, Q)]:
    add('C05', f'exhaust-plain-h{h}', 'c05.cpp', CORE, f'plain key, height {h}: sign from index {lo}..{hi} to the last, then refuse', tr, defs=dict(HF=hf, H=h, MODE=2, LO=lo, HI=hi), redirect=RED, time=250, vruns=1)
add('C05', 'index-codec', 'c05.cpp', CORE, 'plain key: every 32-bit index', Q, defs=dict(HF=0, H=4, MODE=3), redirect=RED, time=100)
REDB = dict(RED, bds_round='model_bds_round', bds_treehash_update='model_bds_treehash_update')
for hf in range(3):
    add('C05', f'high-sign-{HFN[hf]}', 'c05h.cpp', CORE, 'fast key internals, heights 18, 24, 26, 30: signing at any index with any secret key, 5-byte message and authentication path (first and last node any); the traversal step and WOTS signing abstracted', Q, defs=dict(HF=hf, MODE=0), redirect=REDB, noinline=True, time=250)
    add('C04', f'high-{HFN[hf]}', 'c05h.cpp', CORE, 'fast key internals, heights 18, 24, 26, 30: the signature at any index, secret key, 5-byte message and authentication path (first and last node any); the traversal step and WOTS signing abstracted', Q, defs=dict(HF=hf, MODE=0), redirect=REDB, noinline=True, time=250)
add('C05', 'high-move', 'c05h.cpp', CORE, 'fast key internals, heights 18, 24, 26, 30: from any index, any secret key, to the same index, one or two further, or any illegal 32-bit index; the traversal step abstracted', Q, defs=dict(HF=1, MODE=1), redirect=REDB, noinline=True, time=250, reach=['end', 'moved', 'refused'])
# ---- C06
for hf, w, h, np, tr in [(0, 16, 4, 0, Q), (1, 16, 4, 0, Q), (2, 16, 4, 1, Q), (3, 16, 4, 0, Q), (1, 16, 6, 4, Q), (2, 4, 4, 2, Q), (0, 16, 30, 2, Q), (3, 16, 30, 0, Q), (0, 16, 10, 8, TH), (1, 256, 4, 1, TH), (1, 16, 30, 8, TH)]:
    add('C06', f'verify-{(HFN + ["unknown"])[hf]}-w{w}-h{h}-{np}', 'c06.cpp', CORE, f'w {w}: public key 67 arbitrary bytes (hash nibble {hf if hf < 3 else "3..15"}, rest of the descriptor arbitrary), signature of the size for height {h} with arbitrary bytes{"" if not np else f" ({np} index patterns)"}, 3-byte message', tr, defs=dict(MODE=0, SIZES=0, W=w, H=h, NP=np, MLEN=3, HF=hf), time=250 if tr == Q else 2500, vruns=3)
for h in (0, 1, 2, 3, 5, 32):
    add('C06', f'verify-h{h}', 'c06.cpp', CORE, f'signature of the size for the unsupported height {h}, arbitrary contents and descriptor', Q, defs=dict(MODE=0, SIZES=0, W=16, H=h, NP=0, MLEN=3), time=100)
add('C06', 'verify-empty-message', 'c06.cpp', CORE, 'empty message, height 4', Q, defs=dict(MODE=0, SIZES=0, W=16, H=4, NP=1, MLEN=0, HF=1), time=200)
for w in (16, 4, 256):
    add('C06', f'verify-sizes-w{w}', 'c06.cpp', CORE, f'w {w}: 34 signature sizes around every boundary, arbitrary contents and descriptor', Q, defs=dict(MODE=0, SIZES=1, W=w, H=0, NP=0), time=250)
add('C06', 'verify-pksizes', 'c06.cpp', CORE, '14 wrong public key sizes, arbitrary contents', Q, defs=dict(MODE=0, SIZES=2, W=16, H=0, NP=0), time=200)
add('C06', 'constructors', 'c06.cpp', CORE, 'plain and fast key: all 256 heights, hash function 0..15; extended seeds: every unsupported descriptor; 12 wrong sizes; arbitrary contents (supported heights 6..28 with unknown hash functions are not run)', Q, defs=dict(MODE=1), time=250)
for hf in range(3): add('C06', f'descriptor-{HFN[hf]}', 'c06.cpp', CORE, 'height 4, w 16, genuine key and signature (symbolic seed, 3-byte message): every change of the descriptor to an unknown hash function, unknown signature scheme or another height', Q, defs=dict(MODE=3, H=4, HF=hf), time=200)
for w in (4, 16, 256): add('C06', f'sizes-w{w}', 'c06.cpp', CORE, f'w {w}: every signature size up to that of height 255', Q, defs=dict(MODE=2, W=w), time=60)
# ---- C07
RW = {'hash_f': 'model_hash_f', 'prf': 'model_prf'}
for w in (4, 16, 256):
    add('C07', f'digits-w{w}', 'c07.cpp', CORE, f'w {w}: every 32-byte digest: revealed positions, checksum, positions used by verification', Q, defs=dict(MODE=0, W=w, HF=1), redirect=RW, time=250)
    add('C07', f'dominance-w{w}', 'c07.cpp', CORE, f'w {w}: induction over the digits of any two digests, for the documented digits (established by digits-w{w})', Q, defs=dict(MODE=1, W=w, HF=2), redirect=RW, time=250)
# ---- C09
for hf in range(3): add('C09', f'strings-{HFN[hf]}', 'c09.cpp', CORE, 'symbolic keys, inputs, addresses; message lengths 0..300, 1000, 4096, 65535, 65536, 70000, key lengths 0..96 (6), output sizes 32 and 64', Q, defs=dict(MODE=0, HF=hf), time=200)
add('C09', 'unsupported', 'c09.cpp', CORE, 'hash function 0..15 and n in {16,24,32,33,48,63,64}: every combination the library does not implement', Q, defs=dict(MODE=1), time=200)
for ml in (0, 64): add('C09', f'separation-m{ml}', 'c09.cpp', CORE, f'any two calls of prf, hash_f, hash_h, h_msg ({ml}-byte message), any hash functions, keys, inputs and addresses; collision free hash', Q, defs=dict(MODE=2, ML=ml), flags=['--injective'], time=200)
# ---- C10
add('C10', 'codec', 'c10.cpp', CORE, 'any 3-byte descriptor, 51-byte extended seed, 67-byte public key; every hash nibble, signature nibble, even height up to 30, address format nibble', Q, defs=dict(MODE=0), time=100)
add('C10', 'sizes', 'c10.cpp', CORE, 'every input size 0..80, any content', Q, defs=dict(MODE=2), time=100)
for hf, h, fast, af in [(0, 4, 1, 0), (1, 4, 1, 0), (2, 4, 1, 0), (1, 4, 0, 0), (2, 6, 1, 0), (0, 6, 1, 5), (1, 8, 0, 0), (2, 10, 1, 0), (0, 12, 1, 15)]:
    add('C10', f'rebuild-{"fast" if fast else "plain"}-{HFN[hf]}-h{h}-f{af}', 'c10.cpp', CORE, f'height {h}, {HFN[hf]}, address format {af}, 48 symbolic seed bytes: key and key rebuilt from its extended seed; first signature' + ('' if h == 4 else ' (WOTS key, L-tree and WOTS signature abstracted)'), Q, defs=dict(MODE=1, HF=hf, H=h, FAST=fast, AF=af), redirect=RED if h > 4 else {}, time=200, vruns=2 if h < 8 else 0)
# ---- C11
add('C11', 'derive', 'c11.cpp', CORE, 'any 67-byte public key', Q, defs=dict(MODE=0), time=100, reach=['end', 'refused'])
add('C11', 'validate', 'c11.cpp', CORE, 'every size 0..80, any content', Q, defs=dict(MODE=1), time=100, reach=['end', 'accepted', 'rejected'])
add('C11', 'sizes', 'c11.cpp', CORE, 'every public key size 0..100 except 67, any content', Q, defs=dict(MODE=2), time=100)
add('C11', 'binding', 'c11.cpp', CORE, 'two public keys with equal addresses; collision free hash', Q, defs=dict(MODE=3), flags=['--injective'], time=100)
# ---- C08
RUST = {'real': 1}; RUSTH = {'hash': 1}; RUSTP = {'real': 1, 'noinline': ['keccak_f1600_state_permute']}
SHN = ['shake128', 'shake256']
def c08(lang, **kw):
    kw['flags'] = ['--lanes']
    g = ['keccak'] if lang == 'cpp' else []
    X = (lambda d: d) if lang == 'cpp' else (lambda d: dict(d, RUST=1))
    if lang == 'cpp': add('C08', f'{lang}-permutation', 'c08.cpp', g, 'any 1600-bit state', Q, defs=X(dict(MODE=0)), time=200, **kw)
    for fn in (0, 1):
        for lo, hi in [(0, 90), (91, 175), (176, 260), (261, 345)]: add('C08', f'{lang}-{SHN[fn]}-in{lo}-{hi}', 'c08.cpp', g, f'every input of length {lo}..{hi}, 32-byte output', Q, defs=X(dict(MODE=1, FN=fn, LO=lo, HI=hi, OL=32)), time=250, vruns=1, **kw)
        for lo, hi in [(0, 170), (171, 345)]: add('C08', f'{lang}-{SHN[fn]}-out{lo}-{hi}', 'c08.cpp', g, f'every 5-byte input, output length {lo}..{hi}', Q, defs=X(dict(MODE=2, FN=fn, LO=lo, HI=hi, IL=5)), time=250, vruns=1, **kw)
        add('C08', f'{lang}-{SHN[fn]}-boundaries', 'c08.cpp', g, 'input and output lengths at, one before and one after 0 to 3 blocks', Q, defs=X(dict(MODE=3, FN=fn)), time=250, vruns=1, **kw)
        ab = dict(kw, redirect={f: 'model_permute' for f in ('KeccakF1600_StatePermute', 'spec_permute', 'keccak_f1600_state_permute')})
        if 'rust' in ab: ab['rust'] = RUSTP
        for ln in (4096, 65536, 70000): add('C08', f'{lang}-{SHN[fn]}-in{ln}', 'c08.cpp', g, f'every input of length {ln}, 32-byte output; permutation abstracted', Q, defs=X(dict(MODE=1, FN=fn, LO=ln, HI=ln, OL=32)), time=250, vruns=1, **ab)
        for ln in (4096, 70000): add('C08', f'{lang}-{SHN[fn]}-out{ln}', 'c08.cpp', g, f'every 5-byte input, output length {ln}; permutation abstracted', Q, defs=X(dict(MODE=2, FN=fn, LO=ln, HI=ln, IL=5)), time=250, vruns=1, **ab)
        for lo in range(346, 1400, 150): add('C08', f'{lang}-{SHN[fn]}-in{lo}-{lo + 149}', 'c08.cpp', g, f'every input of length {lo}..{lo + 149}, 64-byte output', TH, defs=X(dict(MODE=1, FN=fn, LO=lo, HI=lo + 149, OL=64)), time=2000, vruns=1, **kw)
c08('cpp')
c08('rust', rust=RUST)
# Rust codecs and helpers
for hf in range(3): add('C09', f'rust-strings-{HFN[hf]}', 'rsp.cpp', [], 'Rust: symbolic keys, inputs, addresses; message lengths 0..300, 1000, 4096, 65535, 65536, 70000, key lengths 0..96 (6), output sizes 32 and 64', Q, defs=dict(MODE=0, HF=hf), rust=RUSTH, time=200)
add('C09', 'rust-unsupported', 'rsp.cpp', [], 'Rust: n in {16,24,32,33,48,63,64}, every combination the library does not implement', Q, defs=dict(MODE=1), rust=RUSTH, time=200)
add('C10', 'rust-codec', 'rsp.cpp', [], 'Rust: every size 0..80, any content, for descriptor, extended seed, extended public key; every constructible descriptor', Q, defs=dict(MODE=2), rust=RUSTH, time=100, reach=['end', 'decoded', 'refused'])
add('C11', 'rust-derive', 'rsp.cpp', [], 'Rust: any 67-byte public key; every other size 0..100', Q, defs=dict(MODE=3), rust=RUSTH, time=100, reach=['end', 'derived', 'refused'])
add('C11', 'rust-validate', 'rsp.cpp', [], 'Rust: every size 0..80, any content', Q, defs=dict(MODE=4), rust=RUSTH, time=100, reach=['end', 'accepted', 'rejected'])
add('C14', 'rust-helpers', 'rsp.cpp', [], 'Rust: 12 input sizes 0..500, 10 output sizes 0..300, 0..5 and 100..300 iterations, any content', Q, defs=dict(MODE=5), rust=RUSTH, time=200)
for sl in (0, 32, 48, 51): add('C14', f'rust-chain-{sl}', 'rsp.cpp', [], f'Rust: {sl}-byte seed, any content, any 32-bit shift, 0, 1, 2, 5 and 600 seeds', Q, defs=dict(MODE=6, SL=sl), rust=RUSTH, time=200)
add('C14', 'rust-random-seed', 'rsp.cpp', [], 'Rust: 8 seed sizes 0..100, 5 entropy sizes 0..100, any content and random bytes (the stand-in for rand::OsRng cannot fail)', Q, defs=dict(MODE=7), rust=RUSTH, time=200)
RUSTW = dict(RUSTH, noinline=['hash_f', 'prf'])
for w in (4, 16, 256): add('C07', f'rust-digits-w{w}', 'c07.cpp', CORE, f'Rust, w {w}: every 32-byte digest: revealed positions, checksum, positions used by verification', Q, defs=dict(MODE=0, W=w, HF=1, RUST=1), redirect=RW, rust=RUSTW, time=250)
# ---- C12
MISC = ['misc', 'hashing', 'hash']
add('C12', 'dictionary', 'c12.cpp', ['wordlist'], 'all 4096 words', Q, defs=dict(MODE=0), time=200, vruns=1)
for lo, hi in [(0, 8), (16, 17), (32, 33)]: add('C12', f'roundtrip-{3 * lo}-{3 * hi}', 'c12.cpp', MISC, f'every byte string of {3 * lo} to {3 * hi} bytes (multiples of three)', Q, defs=dict(MODE=1, LO=lo, HI=hi), time=250, vruns=10)
add('C12', 'mnemonic-sizes', 'c12.cpp', MISC, 'every size 0..64', Q, defs=dict(MODE=2), time=200, vruns=3)
add('C12', 'words', 'c12.cpp', MISC, 'up to 7 words of the dictionary, any indices, 7 kinds of separator, leading and trailing', Q, defs=dict(MODE=3, K=7), time=250, vruns=20, reach=['end', 'decoded', 'refused'])
add('C12', 'unknown-word', 'c12.cpp', MISC, '1..4 items, one of 12 non-words at any place', Q, defs=dict(MODE=4), time=250, vruns=20)
for l in range(1, 8): add('C12', f'text-{l}', 'c12.cpp', MISC, f'two items: any dictionary word and any {l}-character text without separators, either order', Q, defs=dict(MODE=5, L=l), time=250, vruns=5, reach=['end', 'decoded', 'refused'] if 3 <= l <= 6 else ['end', 'refused'])
add('C12', 'short-text', 'c12.cpp', MISC, 'any text of up to 3 characters', Q, defs=dict(MODE=6, L=3), time=250, vruns=10)
add('C12', 'hex', 'c12.cpp', MISC, 'every byte string of 16 sizes 0..67; wrapping at 1..9 bytes for three sizes', Q, defs=dict(MODE=7), time=250, vruns=3)
for lo, hi in [(0, 8), (9, 14)]: add('C12', f'hex-text-{lo}-{hi}', 'c12.cpp', MISC, f'any text of {lo} to {hi} characters', Q, defs=dict(MODE=8, LO=lo, HI=hi), time=250, vruns=3)
RD = dict(rust=RUSTH)
add('C12', 'rust-dictionary', 'c12.cpp', ['wordlist'], 'Rust: all 4096 words equal those of C++', Q, defs=dict(MODE=0, RUST=1), time=200, vruns=1, **RD)
for lo, hi in [(0, 8), (16, 17)]: add('C12', f'rust-roundtrip-{3 * lo}-{3 * hi}', 'c12.cpp', ['wordlist'], f'Rust: every byte string of {3 * lo} to {3 * hi} bytes (multiples of three)', Q, defs=dict(MODE=1, LO=lo, HI=hi, RUST=1), time=250, vruns=10, **RD)
add('C12', 'rust-mnemonic-sizes', 'c12.cpp', ['wordlist'], 'Rust: every size 0..64', Q, defs=dict(MODE=2, RUST=1), time=200, vruns=3, **RD)
add('C12', 'rust-words', 'c12.cpp', ['wordlist'], 'Rust: up to 7 words of the dictionary, any indices, 7 kinds of separator, leading and trailing', Q, defs=dict(MODE=3, K=7, RUST=1), time=250, vruns=20, reach=['end', 'decoded', 'refused'], **RD)
add('C12', 'rust-unknown-word', 'c12.cpp', ['wordlist'], 'Rust: 1..4 items, one of 12 non-words at any place', Q, defs=dict(MODE=4, RUST=1), time=250, vruns=20, **RD)
for l in (3, 5, 7): add('C12', f'rust-text-{l}', 'c12.cpp', ['wordlist'], f'Rust: two items: any dictionary word and any {l}-character ASCII text without separators, either order', Q, defs=dict(MODE=5, L=l, RUST=1), time=250, vruns=5, reach=['end', 'decoded', 'refused'] if 3 <= l <= 6 else ['end', 'refused'], **RD)
add('C12', 'rust-short-text', 'c12.cpp', ['wordlist'], 'Rust: any ASCII text of up to 3 characters', Q, defs=dict(MODE=6, L=3, RUST=1), time=250, vruns=10, **RD)
add('C12', 'rust-hex', 'c12.cpp', ['wordlist'], 'Rust: every byte string of 7 sizes 0..8; wrapping at 1..9 bytes for two sizes', Q, defs=dict(MODE=7, RUST=1), time=250, vruns=3, **RD)
for lo, hi in [(0, 6), (7, 8)]: add('C12', f'rust-hex-text-{lo}-{hi}', 'c12.cpp', ['wordlist'], f'Rust: any ASCII text of {lo} to {hi} characters', Q, defs=dict(MODE=8, LO=lo, HI=hi, RUST=1), time=250, vruns=3, **RD)
# ---- C14
add('C14', 'helpers', 'c14.cpp', MISC, '12 input sizes 0..500, 10 output sizes 0..300, 0..5 and 100..300 iterations, any content', Q, defs=dict(MODE=0), time=200, natextra=['nat_urandom.cpp'])
for sl in (0, 1, 32, 48, 51, 200): add('C14', f'chain-{sl}', 'c14.cpp', MISC, f'{sl}-byte seed, any content, any 32-bit shift, 0, 1, 2, 5 and 600 seeds', Q, defs=dict(MODE=1, SL=sl, N=600), time=200, natextra=['nat_urandom.cpp'])
add('C14', 'chain-long', 'c14.cpp', MISC, '32-byte seed, any shift, 70000 seeds', Q, defs=dict(MODE=1, SL=32, N=70000), time=250, mem=6000, natextra=['nat_urandom.cpp'])
add('C14', 'chain-separation', 'c14.cpp', MISC, 'any two shifts, 10 positions each; collision free hash', Q, defs=dict(MODE=2), flags=['--injective'], time=200, natextra=['nat_urandom.cpp'])
add('C14', 'random-seed', 'c14.cpp', MISC, '8 seed sizes 0..100, 5 entropy sizes 0..100, any content; opening the random device may fail, reading it may stop after 0, 1, half or all but one of the bytes', Q, defs=dict(MODE=3), time=200, natextra=['nat_urandom.cpp'], vruns=20, reach=['end', 'seeded', 'refused'])
# ---- C15
PQ = dict(extra=['pq_model.cpp'], time=250, nomodel=False)
add('C15', 'dilithium', 'c15.cpp', ['dil', 'kyb'], 'messages of 0, 1, 32, 100, 1000 bytes, any content, keys, verdict', Q, defs=dict(MODE=0), reach=['end', 'accepted', 'rejected'], **PQ)
add('C15', 'split', 'c15.cpp', ['dil', 'kyb'], '9 signed message sizes, any content', Q, defs=dict(MODE=1), **PQ)
add('C15', 'kyber', 'c15.cpp', ['dil', 'kyb'], 'any keys, ciphertexts, verdicts; two exchanges in a row', Q, defs=dict(MODE=2), **PQ)
add('C15', 'sizes', 'c15.cpp', ['dil', 'kyb'], 'every pair of 6 sizes around the required ones for every constructor and operation', Q, defs=dict(MODE=3), vruns=20, **PQ)
add('C15', 'rust-dilithium', 'c15r.cpp', [], 'Rust: messages of 0, 1, 32, 100, 1000 bytes, any content, keys, verdict', Q, defs=dict(MODE=0), reach=['end', 'accepted', 'rejected'], rust=RUSTH, time=250)
add('C15', 'rust-split', 'c15r.cpp', [], 'Rust: 9 signed message sizes, any content', Q, defs=dict(MODE=1), rust=RUSTH, time=250)
add('C15', 'rust-kyber', 'c15r.cpp', [], 'Rust: any keys and ciphertexts; two exchanges in a row', Q, defs=dict(MODE=2), rust=RUSTH, time=250)
add('C15', 'rust-sizes', 'c15r.cpp', [], 'Rust: every pair of 6 sizes around the required ones for both constructors', Q, defs=dict(MODE=3), vruns=20, rust=RUSTH, time=250)
# ---- C13
def c13(name, prog, pool, delays, start=None, tiers=Q, drain=False, sl=48, **kw):
    d = dict(PROG=','.join('"%s"' % p for p in prog), POOL=pool, DELAYS=delays, SL=sl); d.update({'SYMSTART': 1} if start is None else {'START': start}); d.update({'DRAIN': 1} if drain else {})
    kw.setdefault('time', 250)
    add('C13', name, 'c13.cpp', ['core', 'misc', 'hashing', 'hash', 'pool'], f'callers {"/".join(prog)} (N next tree, A availability, C current index), pool size {pool}, {"any first index below 2^64-64" if start is None else "first index " + str(start)}, {sl} symbolic base seed bytes, every schedule with up to {delays} deviations', tiers, defs=d, redirect={'xmssfast_Genkeypair': 'model_genkeypair'}, co=True, **kw)
for p in (0, 1, 3): c13(f'sequential-{p}', ['CANNAC'], p, 1, drain=True)
for p, d in [(0, 3), (1, 3), (2, 2)]: c13(f'two-{p}', ['NN', 'NN'], p, d, start=253)
c13('two-mixed-1', ['NAC', 'CNA'], 1, 3, start=65533)
c13('three-1', ['N', 'N', 'N'], 1, 3, start=4294967293)
c13('three-2', ['N', 'AN', 'CN'], 2, 2, start=0)
c13('two-2-deep', ['NN', 'NN'], 2, 3, start=253, tiers=TH, time=3000, mem=20000)
c13('three-2-deep', ['N', 'AN', 'CN'], 2, 3, start=0, tiers=TH, time=3000, mem=20000)
c13('three-1-deep', ['N', 'N', 'N'], 1, 4, start=4294967293, tiers=TH, time=3000, mem=20000)
for p in (0, 1): c13(f'two-{p}-deep', ['NN', 'NN'], p, 4, start=65533, tiers=TH, time=3000, mem=20000)
c13('two-sym-1', ['N', 'N'], 1, 1, tiers=Q)
for sl in (0, 32, 51): c13(f'sequential-seed{sl}', ['NCN'], 1, 0, sl=sl)

TECH['C13'] = 'symbolic execution of the LLVM IR of the real pool code under a symbolic scheduler (delay-bounded, each scheduling decision a symbolic choice) with a happens-before race monitor; goals decided by SMT (Z3)'

# ---- C16
RUSTA = dict(RUSTH, noinline=['wots_pkgen', 'l_tree', 'wots_sign', 'wots_pk_from_sig'])
def c16(name, mode, bounds, hf=1, w=16, h=4, fast=1, lo=0, hi=0, np=2, ml=3, red=False, **kw):
    kw.setdefault('time', 250)
    add('C16', name, 'c16.cpp', CORE, bounds, kw.pop('tiers', Q), defs=dict(MODE=mode, HF=hf, W=w, H=h, FAST=fast, LO=lo, HI=hi, NP=np, MLEN=ml), rust=RUSTA if red else RUSTH, redirect=RED if red else {}, **kw)
for hf in range(3):
    for fast, lo, hi in [(1, 0, 0), (1, 9, 9), (0, 6, 6)]: c16(f'{"fast" if fast else "plain"}-{HFN[hf]}-h4-i{lo}', 0, f'height 4, w 16, {HFN[hf]}, index {lo}, any seed and 3-byte message, real WOTS+', hf=hf, fast=fast, lo=lo, hi=hi)
c16('plain-w4-h4', 0, 'height 4, w 4, index 3', hf=1, w=4, fast=0, lo=3, hi=3)
c16('fast-long-message', 0, 'height 4, index 15, 300-byte message', hf=2, fast=1, lo=15, hi=15, ml=300)
for hf, w, h, np in [(0, 16, 4, 3), (1, 16, 6, 3), (2, 16, 10, 3), (1, 4, 4, 2), (0, 16, 30, 2)]: c16(f'verdict-{HFN[hf]}-w{w}-h{h}', 1, f'height {h}, w {w}: arbitrary signature bytes (index included, {np} left/right patterns), key bytes and 3-byte message', hf=hf, w=w, h=h, np=np, reach=['end', 'accepted', 'rejected'])
for hf, h in [(1, 4), (0, 6), (2, 8)]: c16(f'history-h{h}', 2, f'height {h}: every sign/skip history to exhaustion (WOTS key, L-tree and WOTS signature abstracted)', hf=hf, h=h, red=True, vruns=2 if h < 8 else 1)
for hf, h, lo, hi in [(1, 4, 0, 16), (0, 6, 58, 64)]: c16(f'discipline-h{h}', 3, f'height {h}: position {lo}..{hi}, any illegal 32-bit index, then two signatures (same abstraction)', hf=hf, h=h, lo=lo, hi=hi, red=True)
for hf, h, lo, hi in [(2, 4, 0, 15), (1, 6, 60, 63)]: c16(f'plain-end-h{h}', 4, f'plain key, height {h}: from index {lo}..{hi}, three signatures (same abstraction)', hf=hf, h=h, lo=lo, hi=hi, red=True)
for hf, w in [(0, 16), (1, 16), (2, 16), (1, 4), (2, 256)]:
    for k, n in enumerate(['sign', 'recover', 'pkgen', 'ltree']):
      if (w, n) != (256, 'recover'): c16(f'{n}-{HFN[hf]}-w{w}', 6, f'{n}: every digest, secret, public seed, address and value; w {w}, {HFN[hf]}', hf=hf, w=w, lo=k, hi=k)
c16('import', 5, 'height 4: any extended seed of 51 bytes; 8 wrong sizes; every unsupported height; every undecodable extended seed (same abstraction)', hf=1, red=True)
# ---- Rust halves of C01-C06 and C10: the same harnesses over lib/rust/ffi.rs (harness/rsadapt.h)
def rs(prop, name, src, bounds, red=None, **kw):
    d = dict(kw.pop('defs')); d['RUST'] = 1; kw.setdefault('time', 250)
    add(prop, 'rust-' + name, src, CORE, 'Rust: ' + bounds, kw.pop('tiers', Q), defs=d, rust=RUSTA if red else RUSTH, redirect=red or {}, **kw)
REDS = dict(RED, wots_pk_from_sig='x')
for hf in range(3):
    for fast in (0, 1): rs('C01', f'{"fast" if fast else "plain"}-{HFN[hf]}-h4', 'c01.cpp', 'height 4, w 16, every index, any seed and 5-byte message', defs=dict(HF=hf, W=16, H=4, MLEN=5, FAST=fast))
for w, fast in [(4, 0), (4, 1)]: rs('C01', f'{"fast" if fast else "plain"}-w{w}-h4', 'c01.cpp', f'height 4, w {w}, every index', defs=dict(HF=w // 4, W=w, H=4, MLEN=3, FAST=fast))
for hf, fast, lens in [(0, 1, '0,1,63,64,300'), (2, 0, '135,136,65535,65536,70000')]: rs('C01', f'lengths-{HFN[hf]}', 'c01.cpp', f'height 4, messages of {lens} bytes, any content', defs=dict(HF=hf, W=16, H=4, MLEN=1, MODE=1, LENS=lens, FAST=fast), mem=9000)
for hf, h, fast, lo, hi in [(0, 6, 1, 0, 63), (1, 8, 1, 0, 255), (1, 6, 0, 28, 40)]: rs('C01', f'tall-{HFN[hf]}-{"fast" if fast else "plain"}-h{h}', 'c01.cpp', f'height {h}, every index {lo}..{hi} in order; WOTS+ and L-tree abstracted by a correct one-time signature', red=REDS, defs=dict(HF=hf, W=16, H=h, MLEN=3, MODE=2, FAST=fast, FIRST=lo, LAST=hi))
for hf, h in [(1, 4), (0, 6), (2, 8), (1, 10), (0, 12), (2, 14)]: rs('C02', f'hist-h{h}', 'c02.cpp', f'height {h}: every sign/skip history of all indices (same abstraction)', red=RED, defs=dict(HF=hf, H=h, MODE=0), vruns=1 if h < 10 else 0, mem=4500 if h < 14 else 7000)
rs('C02', 'jump-h4', 'c02.cpp', 'height 4: any two jumps with signatures after each (same abstraction)', red=RED, defs=dict(HF=1, H=4, MODE=1, LO=0, HI=15))
rs('C02', 'jump-h6', 'c02.cpp', 'height 6: first jump to 30..33, second anywhere later', red=RED, defs=dict(HF=0, H=6, MODE=1, LO=30, HI=33), vruns=1)
rs('C02', 'plain-h4', 'c02.cpp', 'height 4: fast and plain signer, any index (same abstraction)', red=RED, defs=dict(HF=2, H=4, MODE=4, LO=0, HI=15))
for part, nm in enumerate(PARTS):
    for hf, w, h, idx, ml in [(part % 3, 16, 4, 6, 3), ((part + 1) % 3, 16, 10, 0x2a5, 40)]: rs('C03', f'{nm}-{HFN[hf]}-h{h}', 'c03.cpp', f'height {h}, w {w}: every accepted triple with a {ml}-byte message and index {idx}; any change of the {nm}', red=dict(wots_pk_from_sig='x'), defs=dict(HF=hf, W=w, H=h, MLEN=ml, PART=part, LO=idx, HI=idx, NP=16 if h == 4 else 8), flags=['--injective'], vruns=2 if h < 10 else 0, reach=['end', 'accepted'])
for hf, w, h, fast, i in [(0, 16, 4, 0, 5), (1, 16, 4, 1, 15), (2, 4, 4, 0, 9), (2, 16, 4, 1, 0)]: rs('C04', f'{"fast" if fast else "plain"}-{HFN[hf]}-w{w}-h{h}-i{i}', 'c04.cpp', f'height {h}, w {w}, index {i}, any seed and 5-byte message: secret key, public key, signature', defs=dict(HF=hf, W=w, H=h, FAST=fast, LO=i, HI=i, MLEN=5, MODE=0), vruns=2)
for hf, w, h, np in [(0, 16, 4, 0), (1, 16, 10, 8), (2, 4, 6, 4), (1, 16, 30, 8)]: rs('C04', f'verify-{HFN[hf]}-w{w}-h{h}', 'c04.cpp', f'height {h}, w {w}: arbitrary signature ({"all" if not np else np} left/right patterns), public key and message: accepted exactly when the recomputed root matches', defs=dict(HF=hf, W=w, H=h, FAST=0, LO=0, HI=0, MLEN=5, MODE=1, NP=np), vruns=2)
for hf, h, lo, hi, jump in [(0, 4, 0, 16, 1), (1, 6, 56, 64, 0)]: rs('C05', f'refuse-h{h}', 'c05.cpp', f'fast key, height {h}: position {lo}..{hi} (2^h = exhausted), any illegal 32-bit index, then {"any legal jump" if jump else "stay"} and two signatures (same abstraction)', red=RED, defs=dict(HF=hf, H=h, MODE=0, LO=lo, HI=hi, JUMP=jump))
for mode, nm, hf, h, lo, hi in [(1, 'fast', 1, 4, 0, 15), (1, 'fast', 0, 8, 253, 255), (2, 'plain', 2, 4, 0, 15), (2, 'plain', 1, 6, 60, 63)]: rs('C05', f'exhaust-{nm}-h{h}', 'c05.cpp', f'{nm} key, height {h}: sign from index {lo}..{hi} to the last, then refuse (same abstraction)', red=RED, defs=dict(HF=hf, H=h, MODE=mode, LO=lo, HI=hi), vruns=1)
for mode in (0, 1): add('C05', 'rust-high-' + ['sign', 'move'][mode], 'c05h.cpp', CORE, 'Rust: heights 18, 24, 26, 30: ' + ['signing at any index, secret key, message and authentication path (first and last node any)', 'from any index to the same index, one or two further, or any illegal index'][mode] + '; the traversal step and WOTS signing abstracted', Q, defs=dict(HF=2 - mode, MODE=mode, RUST=1), rust=dict(RUSTA, bds=1, noinline=RUSTA['noinline'] + ['bds_round', 'bds_treehash_update']), redirect=REDB, time=250)
for lo, to in [(0, 3), (4, 28)]: add('C02', f'rust-step-h30-{lo}', 'c05h.cpp', CORE, f'Rust: height 30: one real traversal step from any index ending in {lo}..{to} one bits and any traversal state whose subtrees are ready', Q, defs=dict(HF=0, MODE=2, HI=3, LO=lo, TO=to, RUST=1), rust=dict(RUSTA, bds=1), redirect=RED, time=280)
rs('C05', 'index-codec', 'c05.cpp', 'plain key: every 32-bit index', red=RED, defs=dict(HF=0, H=4, MODE=3))
for hf, w, h, np in [(0, 16, 4, 0), (1, 16, 6, 4), (2, 4, 4, 2), (3, 16, 4, 0), (0, 16, 30, 2), (1, 16, 30, 2), (2, 16, 30, 2), (3, 16, 30, 0)]: rs('C06', f'verify-{(HFN + ["unknown"])[hf]}-w{w}-h{h}', 'c06.cpp', f'w {w}: any 67-byte public key (hash nibble {hf if hf < 3 else "3..15"}), any signature of the size for height {h}{"" if not np else f" ({np} index patterns)"}, 3-byte message', defs=dict(MODE=0, SIZES=0, W=w, H=h, NP=np, MLEN=3, HF=hf), vruns=3)
for h in (0, 1, 2, 3, 5, 32): rs('C06', f'verify-h{h}', 'c06.cpp', f'signature of the size for the unsupported height {h}, arbitrary contents and descriptor', defs=dict(MODE=0, SIZES=0, W=16, H=h, NP=0, MLEN=3))
rs('C06', 'verify-sizes-w16', 'c06.cpp', '34 signature sizes around every boundary, arbitrary contents and descriptor', defs=dict(MODE=0, SIZES=1, W=16, H=0, NP=0))
rs('C06', 'verify-pksizes', 'c06.cpp', '14 wrong public key sizes, arbitrary contents', defs=dict(MODE=0, SIZES=2, W=16, H=0, NP=0))
rs('C06', 'constructors', 'c06.cpp', 'plain and fast key: every unsupported height; every unsupported extended seed; 12 wrong sizes; arbitrary contents', defs=dict(MODE=1))
for w in (4, 16, 256): rs('C06', f'sizes-w{w}', 'c06.cpp', f'w {w}: every signature size up to that of height 255', defs=dict(MODE=2, W=w), time=100)
rs('C06', 'descriptor', 'c06.cpp', 'height 4, genuine key and signature: every change of the descriptor to an unknown hash function, scheme or another height', defs=dict(MODE=3, H=4, HF=1))
for hf, h, fast in [(1, 4, 1), (0, 4, 0), (2, 8, 1)]: rs('C10', f'rebuild-{"fast" if fast else "plain"}-{HFN[hf]}-h{h}', 'c10.cpp', f'height {h}: key and key rebuilt from its extended seed; first signature' + ('' if h == 4 else ' (same abstraction)'), red=RED if h > 4 else None, defs=dict(MODE=1, HF=hf, H=h, FAST=fast, AF=0))
# ---- C17
for bl, h, n in [(48, 4, 4), (51, 4, 3), (0, 4, 3), (1, 6, 3)]: add('C17', f'pool-base{bl}-h{h}', 'c17.cpp', CORE, f'Rust pool: any base seed of {bl} bytes, height {h}, 15 starting indices, cache sizes 0, 1, 2, 3, 5, {n} trees; WOTS key and L-tree abstracted as uninterpreted functions', defs=dict(MODE=0, BL=bl, H=h, N=n), rust=RUSTA, redirect=RED, time=250)
add('C17', 'pool-refuse', 'c17.cpp', CORE, 'Rust pool: 9 unsupported heights, 15 starting indices, cache sizes 0..2, four requests', defs=dict(MODE=1, BL=48, H=0, N=0), rust=RUSTA, redirect=RED, time=250)
# ---- C18
JSX = CORE + ['misc', 'hashing']
for h, fast in [(4, 1), (6, 1), (4, 0)]: add('C18', f'keys-{"fast" if fast else "plain"}-h{h}', 'c18.cpp', JSX, f'height {h}: any seed, every hash function, any index; WOTS key, L-tree and WOTS signature abstracted as uninterpreted functions', defs=dict(MODE=0, H=h, FAST=fast), redirect=RED, time=250)
add('C18', 'restore', 'c18.cpp', JSX, 'hex seed and mnemonic of any 51 bytes naming a height below 6 (same abstraction)', defs=dict(MODE=1, SIZES=0), redirect=RED, time=250, reach=['end', 'refused', 'restored'])
add('C18', 'restore-sizes', 'c18.cpp', JSX, 'text of 12 wrong sizes, any characters; mnemonics of 7 wrong sizes', defs=dict(MODE=1, SIZES=1), redirect=RED, time=250)
for i, n in enumerate(['address', 'address-text', 'public-key-text', 'helpers']): add('C18', n, 'c18.cpp', JSX, ['address text of any 3..67 bytes', 'any text of 0..11 characters', 'any public key; 9 wrong text sizes', 'helpers on 5 sizes, any content; exported enumerations'][i], defs=dict(MODE=2, PART=i, N=11), time=250)
for n in (0, 1, 40): add('C18', f'dilithium-{n}', 'c18.cpp', ['misc', 'hashing', 'dil', 'hash'], f'keys, a message of {n} bytes and a signed message, symbolic at both ends, the middle and every 61st byte, fixed elsewhere', defs=dict(MODE=3, N=n), **PQ)
add('C18', 'kyber', 'c18.cpp', ['misc', 'hashing', 'kyb', 'hash'], 'keys, peer key and ciphertext, symbolic at both ends, the middle and every 61st byte, fixed elsewhere', defs=dict(MODE=4), **PQ)
