"""Rust side of a job: copies /repo's Rust module tree, compiles it (rustc) into LLVM IR for llsym or a native library.
The copy differs from the source only in: column-0 fns are made pub (and, for lib/rust/high.rs, the fields of TreeHashInst), on the symbolic side the word list is indexed through tokens and HashMap is the association list of lib/rust/shim.rs,
functions named in job option rustnoinline are not inlined; with spec 'hash' the SHAKE module is the oracle lib/rust/fips202_model.rs."""
import os, re, shutil, threading, hashlib
LOCK = threading.Lock(); DONE = {}
RENAME = [(r'_RNvMs\w*_NtCs\w+_5alloc7raw_vecINtB\w+_6RawVechE8grow_one\w*', 'rsm_grow_u8'), (r'_RNvMs\w*_NtCs\w+_5alloc7raw_vecINtB\w+_6RawVecINtNtB\w+_3vec3VechEE8grow_one\w*', 'rsm_grow_vec'),
          (r'_RNvNtNtNtCs\w+_4core7unicode12unicode_data11conversions8to_lower', 'rsm_to_lower'), (r'_RNvXs\w*_NtCs\w+_4core3fmtNtB\w+_9FormatterNtB\w+_5Write10write_char', 'rsm_write_char'),
          (r'_RNvMs\w*_NtCs\w+_4core3fmtNtB\w+_9Formatter9write_str', 'rsm_write_str'), (r'_RNvMs\w*_NtNtNtCs\w+_4core3fmt3num3imp[jym]4__fmt', 'rsm_decimal')]
def clean(t):
    t = re.sub(r'\b(captures|range|initializes)\((?:[^()]|\([^()]*\))*\)', '', t)
    out = []
    for l in t.split('\n'):
        if l.startswith('attributes #') or l.startswith('!') or '@llvm.lifetime.' in l or '@llvm.experimental.noalias.scope' in l or '@llvm.assume' in l: continue
        l = re.sub(r', ![\w.]+ !\d+', '', l); l = re.sub(r' ![\w.]+ !\d+', '', l); l = re.sub(r' #\d+', '', l)
        l = re.sub(r'\b(dead_on_return|dead_on_unwind|samesign|nonnull|noundef|noalias|nofree|readonly|writeonly|readnone|writable|returned|allocptr|allocalign|inrange)\b ?', '', l) if not l.startswith('@') else l
        l = re.sub(r'\bdereferenceable(_or_null)?\(\d+\)', '', l)
        l = re.sub(r'\bgetelementptr (inbounds |nuw |nusw )+', lambda m: 'getelementptr ' + ('inbounds ' if 'inbounds' in m.group(0) else ''), l); l = re.sub(r'\btrunc (nuw |nsw )+', 'trunc ', l); l = re.sub(r'\buitofp nneg ', 'uitofp ', l)
        out.append(l)
    t = '\n'.join(out)
    for a, b in RENAME: t = re.sub(r'@' + a + r'\b', '@' + b, t)
    if re.search(r'(?m)^define .*@rsm_decimal\(', t): t = re.sub(r'(?m)^declare .*@rsm_decimal\(.*$', '', t)
    return t
def build(spec, kind, W, SRC, V, sh, model=False):
    noinl = tuple(spec.get('noinline', ())); hashm = bool(spec.get('hash')) and (kind == 'bc' or model)
    key = (kind, noinl, hashm, bool(spec.get('bds')))
    with LOCK:
        ev = DONE.get(key)
        if ev is None: ev = DONE[key] = [threading.Event(), None, None]; mine = True
        else: mine = False
    if not mine: ev[0].wait(); return ev[1], ev[2]
    try: ev[1], ev[2] = _build(key, W, SRC, V, sh)
    except Exception as e: ev[2] = 'rust build: %r' % e
    ev[0].set(); return ev[1], ev[2]
def _build(key, W, SRC, V, sh):
    kind, noinl, hashm, bds = key
    D = f"{W}/rs-{hashlib.sha1(repr(key).encode()).hexdigest()[:8]}"; shutil.rmtree(D, ignore_errors=True); shutil.copytree(f'{V}/lib/rust', D); shutil.copytree(f'{SRC}/rust_wrapper', f'{D}/rust_wrapper')
    for r, _, fs in os.walk(f'{D}/rust_wrapper'):
        for f in fs:
            if not f.endswith('.rs'): continue
            p = f'{r}/{f}'; s = open(p).read()
            s = re.sub(r'(?m)^fn ', 'pub fn ', s)
            if bds: s = re.sub(r'pub struct TreeHashInst \{[^}]*\}', lambda m: re.sub(r'(?m)^    (\w+):', r'    pub \1:', m.group(0)), s)
            if f == 'wordlist.rs': s = s.replace('pub const WORDLIST', 'pub const REAL_WORDLIST', 1) + ('\npub const WORDLIST: crate::shim::Words = crate::shim::Words;\n' if kind == 'bc' else "\npub const WORDLIST: &'static [&'static str] = REAL_WORDLIST;\n")
            if kind == 'bc': s = s.replace('std::collections::HashMap', 'crate::shim::HashMap')
            for m in re.findall(r'format!\(\s*"([^"]*)"', s):
                if re.search(r'\{[^}]*:', m) and m not in ('{:02x}', '{:?}'): return None, f'format string {m!r} in {f} is not modelled'
            for n in noinl: s = re.sub(r'(?m)^pub fn %s\b' % n, '#[inline(never)]\npub fn %s' % n, s)
            open(p, 'w').write(s)
    if bds: open(D + '/lib.rs', 'a').write('\npub mod high;\n')
    if hashm: shutil.copy(f'{V}/lib/rust/fips202_model.rs', f'{D}/rust_wrapper/xmss_alt/fips202.rs')
    base = ['rustc', '--edition', '2021', '--crate-name', 'qrs', '-C', 'opt-level=2', '-C', 'codegen-units=1', '-C', 'panic=abort', '-C', 'overflow-checks=on', '-A', 'warnings']
    if kind == 'bc':
        rc, o = sh(base + ['--crate-type=lib', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'debuginfo=0', D + '/lib.rs', '-o', D + '/q.ll'], 300)
        if rc: return None, o[-1500:]
        open(D + '/c.ll', 'w').write(clean(open(D + '/q.ll').read()))
        rc, o = sh(['llvm-as-18', D + '/c.ll', '-o', D + '/q.bc'], 120)
        return ([D + '/q.bc'], None) if rc == 0 else (None, o[-1500:])
    rc, o = sh(base + ['--crate-type=staticlib', D + '/lib.rs', '-o', D + '/libqrs.a'], 300)
    return ([D + '/libqrs.a'], None) if rc == 0 else (None, o[-1500:])
