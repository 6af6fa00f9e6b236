#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--job name] [--keep]
Re-encodes /repo's current sources (LLVM IR -> llsym -> SMT), decides the property's jobs, replays counterexamples."""
import sys, os, json, time, subprocess, shutil, glob, re, concurrent.futures as cf, threading, importlib.util, hashlib
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
args = sys.argv[1:]; prop = args[0]
tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in args
if '--tier' in args: tier = args[args.index('--tier') + 1]
if '--job' in args: only = args[args.index('--job') + 1]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 780 if tier == 'quick' else 6 * 3600
NPROC = os.cpu_count() or 4
sys.path.insert(0, V)
from checks import jobs as J
W = f'{V}/build/run/{prop}'
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
RP = f'{V}/build/replay/{prop}'
shutil.rmtree(RP, ignore_errors=True); os.makedirs(RP)
LLSYM = f'{V}/build/engine/llsym'
notes = []
def sh(cmd, timeout=600, mem=None, cwd=None, env=None):
    pre = None
    if mem:
        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
            try: resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            except Exception: pass
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=cwd, env=env); end = time.time() + timeout
    while True:
        try: o, _ = p.communicate(timeout=1); return p.returncode, o.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            if time.time() > end or (found.is_set() and tier == 'quick' and not only): # too long, or another job has already confirmed a violation
                p.kill(); o, _ = p.communicate(); return -999, 'timeout\n' + (o or b'').decode('utf8', 'replace')[-2000:]
found = threading.Event() # a violation is confirmed: jobs not yet started are left out, running ones are ended
rc, o = sh(['make', '-s', '-C', V + '/engine', f'O={V}/build/engine'], 900)
if rc: print('cannot build engine\n' + o)
INC = [f'-I{V}/lib/stubs', f'-I{V}/engine', f'-I{V}/harness', f'-I{SRC}', f'-I{SRC}/xmss-alt', f'-I{SRC}/qrl', f'-I{SRC}/shasha', f'-I{SRC}/api', f'-I{SRC}/dilithium', f'-I{SRC}/kyber']
SYMF = ['clang++-18', '-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-emit-llvm', '-c', f'-I{V}/lib/symstubs'] + INC
NATF = ['g++', '-DVERIF_NATIVE', '-std=c++17', '-O1', '-g', '-w', '-c'] + INC
# concurrency jobs: the pool and its harness, built against lib/costubs with memory accesses reported to lib/co.cpp
CO = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', f'-I{V}/lib/costubs']
COF = {'bc': SYMF + CO, 'nat': ['clang++-18', '-DVERIF_NATIVE', '-std=c++17', '-O1', '-g', '-w', '-c'] + CO + INC, 'plain': ['clang++-18', '-DVERIF_NATIVE', '-std=c++17', '-O1', '-g', '-w', '-c'] + CO + INC}
NATO = ['g++', '-DVERIF_NATIVE', '-std=c++17', '-O2', '-w', '-c'] + INC
# ---- source groups: a group names repo sources (globbed, so that added files are picked up) and runtime sources
def repo_cpp(names): return [f'{SRC}/{n}' for n in names]
def group_sources(g):
    if g == 'core':
        c = [f for f in sorted(glob.glob(SRC + '/xmss-alt/*.c')) if not f.endswith('/fips202.c')]
        q = [f for f in sorted(glob.glob(SRC + '/qrl/*.cpp')) if os.path.basename(f) not in ('misc.cpp', 'hashing.cpp', 'wordlist.cpp', 'xmssPool.cpp')]
        return c + q + sorted(glob.glob(SRC + '/shasha/*.cpp'))
    return {'keccak': [SRC + '/xmss-alt/fips202.c'], 'model': [V + '/lib/hash_model.cpp'], 'misc': repo_cpp(['qrl/misc.cpp', 'qrl/wordlist.cpp']),
            'hashing': repo_cpp(['qrl/hashing.cpp']), 'pool': repo_cpp(['qrl/xmssPool.cpp']), 'dil': sorted(glob.glob(SRC + '/dilithium/*.cpp')), 'kyb': sorted(glob.glob(SRC + '/kyber/*.cpp')),
            'wordlist': repo_cpp(['qrl/wordlist.cpp'])}[g]
objlock = threading.Lock(); objs = {}
def build_obj(src, kind, defs=()):
    """kind: bc | nat (ASan) | plain -> (path, error)"""
    key = (src, kind, tuple(defs))
    with objlock:
        ev = objs.get(key)
        if ev is None: ev = objs[key] = [threading.Event(), None, None]; mine = True
        else: mine = False
    if not mine:
        ev[0].wait(); return ev[1], ev[2]
    tag = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
    out = f"{W}/{os.path.basename(src).replace('.', '_')}-{tag}." + ('bc' if kind == 'bc' else 'o')
    fl = {'bc': SYMF, 'nat': NATF + ['-fsanitize=address', '-fno-omit-frame-pointer'], 'plain': NATF, 'opt': NATO}[kind]
    if src.endswith('/wordlist.cpp') and kind != 'bc': fl = ['g++', '-DVERIF_NATIVE', '-std=c++17', '-O0', '-w', '-c'] + INC # data only
    if '-DVERIF_CO' in defs: fl = COF[kind]
    cmd = fl + list(defs) + (['-x', 'c++'] if src.endswith('.c') else []) + [src, '-o', out]
    rc, o = sh(cmd, 600)
    if rc: ev[2] = f'{os.path.basename(src)}: ' + o[-1500:]
    else: ev[1] = out
    ev[0].set(); return ev[1], ev[2]
def rust_needed(job): return job.get('rust')
def job_sources(job, kind, model):
    srcs = []
    for g in job['groups']:
        if g == 'hash': srcs += group_sources('model' if (kind == 'bc' or model) else 'keccak')
        else: srcs += group_sources(g)
    return srcs
def build_job(job, kind, model=False):
    """kind bc/nat/plain: returns (file, error)"""
    defs = [f'-DP_{k}={v}' for k, v in job.get('defs', {}).items()] + [f'-DTIER_THOROUGH={1 if tier == "thorough" else 0}']
    parts = []; todo = [(s, ()) for s in job_sources(job, kind, model)]
    if job.get('noinline') and kind == 'bc': todo = [(s, ('-fno-inline-functions', '-fno-inline')) if '/xmss-alt/' in s else (s, d) for s, d in todo]
    if job.get('co'): # instrumented units first: their copies of inline functions are kept
        pool = set(group_sources('pool')); todo = [(s, ('-DVERIF_CO',)) if s in pool else (s, d) for s, d in todo]; todo.sort(key=lambda x: not x[1]); defs.append('-DVERIF_CO')
        todo.insert(0, (V + '/lib/co.cpp', (f'-I{V}/lib/costubs',)))
    todo.insert(0, (f"{V}/harness/{job['src']}", tuple(defs)))
    for x in job.get('extra', []): todo.append((f'{V}/lib/{x}', ()))
    if kind == 'bc':
        todo.append((V + '/lib/rt.cpp', ()))
        for x in job.get('symextra', []): todo.append((f'{V}/lib/{x}', ()))
    else:
        todo.append((V + '/lib/native.cpp', ()))
        for x in job.get('natextra', []): todo.append((f'{V}/lib/{x}', ()))
    if job.get('rust'): todo.append((V + '/lib/rs_glue.cpp', ())); kind == 'bc' and todo.append((V + '/lib/rs_models.cpp', ()))
    for s, d in todo:
        p, e = build_obj(s, kind, d)
        if e: return None, e
        parts.append(p)
    rustlibs = []
    if job.get('rust'):
        from checks import rustbuild
        p, e = rustbuild.build(job['rust'], 'bc' if kind == 'bc' else 'nat', W, SRC, V, sh, model)
        if e: return None, e
        (parts if kind == 'bc' else rustlibs).extend(p)
    out = f"{W}/{job['name']}.{'bc' if kind == 'bc' else kind + ('-m' if model else '')}"
    if kind == 'bc': rc, o = sh(['llvm-link-18', '-o', out] + parts)
    else: rc, o = sh(['g++', '-o', out] + (['-fsanitize=address'] if kind == 'nat' else []) + parts + rustlibs + ['-lpthread', '-ldl', '-lm', '-lgcc_s'])
    return (out, None) if rc == 0 else (None, o[-2000:])
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0')
def nat_verdict(rc): return 'fail' if rc not in (0, 77, -999, 3) else {0: 'pass', 77: 'assume', -999: 'timeout', 3: 'error'}[rc]
def run_job(job):
    r = {'job': job, 'name': job['name'], 'status': 'ok', 'why': [], 'viol': [], 'res': None, 'val': 0, 'valfail': None}
    t = time.time()
    if found.is_set(): r.update(status='incomplete', why=['not run: another job already reported a violation'], symtime=0, time=0); return r
    bc, e = build_job(job, 'bc')
    if e: r['status'] = 'incomplete'; r['why'].append('cannot encode: ' + e[-600:]); 
    else:
        left = BUDGET - (time.time() - T0) - 60
        tl = min(job.get('time', 120), max(left, 5)); out = f'{W}/{job["name"]}.json'
        cmd = [LLSYM, '--entry', 'harness', '--out', out, '--time', str(tl), '--maxviol', str(job.get('maxviol', 3))] + job.get('flags', []) + [bc]
        for fn, mod in job.get('redirect', {}).items():
            _, nm = sh(['llvm-nm-18', '--defined-only', bc])
            for l in nm.splitlines():
                q = l.split()[-1] if l.split() else ''
                if re.match(r'_Z%d%s' % (len(fn), fn), q) or re.match(r'_ZL%d%s' % (len(fn), fn), q) or q == fn: cmd[1:1] = ['--redirect', f'{q}={mod}']
                if re.match(r'_RNv\w*\d(%d%s)$' % (len(fn), fn), q) or re.match(r'_RNv\w*[a-z](%d%s)$' % (len(fn), fn), q): cmd[1:1] = ['--redirect', f'{q}=rsm_{fn}']
        rc, o = sh(cmd, tl + 90, mem=job.get('mem', 7000))
        try: r['res'] = json.load(open(out))
        except Exception: r['res'] = None
        if r['res'] is None: r['status'] = 'incomplete'; r['why'].append(f'engine gave no result (rc {rc}) ' + o[-300:])
        else:
            R = r['res']
            if R['abort']: r['status'] = 'incomplete'; r['why'].append(R['abort'])
            if R['incomplete']: r['status'] = 'incomplete'; r['why'] += R['incomplete'][:6]
            for q in job.get('reach', ['end']):
                if q not in R['reached'] and not R['violations']: r['status'] = 'incomplete'; r['why'].append(f'never reached: {q}')
            for n, v in enumerate(R['violations']): r['viol'].append(confirm(job, n, v))
        ('--keep' in sys.argv) or (os.path.exists(bc) and os.remove(bc))
    r['symtime'] = time.time() - t
    # validation of the encoding: the same harness, run natively on the real code
    n = job.get('vruns', 2)
    if n and not any(v['confirmed'] for v in r['viol']):
        exe, e = build_job(job, 'nat')
        if e: r['why'].append('native build: ' + e[-600:])
        else:
            tb = time.time()
            for i in range(n):
                rc, o = sh([exe, '-r', str(seed * 1000 + i)], job.get('ntime', 60), env=ENV)
                vd = nat_verdict(rc)
                if vd == 'fail':
                    found.set()
                    r['valfail'] = dict(id='native:' + first_fail(o), msg=o[-600:], where='', confirmed=True, how='native run of the harness', replay=write_replay(job, 'rand%d' % i, {}, [], f'-r {seed * 1000 + i}', 'nat', False)); break
                if vd == 'pass': r['val'] += 1
                if vd == 'error' or vd == 'timeout': r['why'].append('native run: ' + vd)
                if time.time() - tb > job.get('vtime', 25): break
    r['time'] = time.time() - t
    return r
def first_fail(o):
    m = re.search(r'ASSERTION-FAILED (\S+)|SUMMARY: \S+ (\S+)|UNCAUGHT-EXCEPTION (\S+)|panicked at ([^\n]*)', o)
    return next((x for x in m.groups() if x), '?') if m else 'crash'
def write_replay(job, tag, inputs, hashes, extra, kind, model):
    d = f'{RP}/{job["name"]}-{tag}'; os.makedirs(d, exist_ok=True)
    with open(d + '/inputs', 'w') as f:
        for k, v in inputs.items(): f.write(f'in {k} {v}\n')
        for fn, a, b in hashes: f.write(f'hash {fn} {a or "-"} {b}\n')
    with open(d + '/replay.sh', 'w') as f:
        f.write(f'#!/bin/sh\n# rebuilds the harness natively against {REPO} and runs this counterexample\nexec python3 {V}/replay.py {prop} {job["name"]} {tier} {kind} {1 if model else 0} {d}/inputs {extra}\n')
    os.chmod(d + '/replay.sh', 0o755)
    return d + '/replay.sh'
def confirm(job, n, v):
    inputs = v['inputs']; c = dict(id=v['id'], msg=v['msg'], where=v['where'], inputs=inputs, confirmed=False, how='')
    f = f'{W}/{job["name"]}-{n}.in'
    with open(f, 'w') as o:
        for k, x in inputs.items(): o.write(f'in {k} {x}\n')
        for fn, a, b in v['hashes']: o.write(f'hash {fn} {a or "-"} {b}\n')
    uninit = 'uninit' in (v['msg'] + v['id']).lower()
    plans = [('nat', False), ('nat', True)] if not job.get('nomodel') else [('nat', False)]
    if uninit: plans = [('plain', False), ('plain', True)] + plans
    for kind, model in plans:
        exe, e = build_job(job, kind, model)
        if e: c['how'] += f'[{kind}: no native build: {e[-300:]}]'; continue
        cmd = [exe, '-i', f] + (['-m'] if model else [])
        if kind == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
        rc, o = sh(cmd, 180, env=ENV)
        c['how'] += f'[{kind}{" model-hash" if model else ""}: rc {rc} {first_fail(o) if rc else ""}]'
        if nat_verdict(rc) == 'fail':
            found.set(); c['confirmed'] = True; c['native'] = first_fail(o)
            c['replay'] = write_replay(job, str(n), inputs, v['hashes'] if model else [], '', kind, model)
            break
    return c
def main():
    jobs = [j for j in J.JOBS[prop] if (only and re.fullmatch(only, j['name'])) or (not only and tier in j.get('tiers', ('quick', 'thorough')))]
    jobs.sort(key=lambda j: -j.get('time', 120))
    with cf.ThreadPoolExecutor(max_workers=max(1, min(NPROC, J.PAR.get(prop, NPROC)))) as ex: rs = list(ex.map(run_job, jobs))
    known = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) job=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop: known.append(m.groups())
    except OSError: pass
    nv = 0; seen = set()
    for r in rs:
        for v in [x for x in r['viol'] if x['confirmed']] + ([r['valfail']] if r['valfail'] else []):
            k = next((k for k in known if re.fullmatch(k[1], r['name']) and re.fullmatch(k[2], v['id'])), None)
            if k:
                if k not in seen: print(f'KNOWN-FINDING: property={prop} {k[3]}'); seen.add(k)
                continue
            nv += 1
            print(f'# {r["name"]}: {v["id"]}: {v["msg"][:300]} at {v["where"][:200]} {v["how"]}')
            print(f'VIOLATION property={prop} replay={v["replay"]}')
        for v in r['viol']:
            if not v['confirmed']: r['status'] = 'incomplete'; r['why'].append(f'counterexample not reproduced natively, not reported: {v["id"]} {v["msg"][:200]} {v["where"][:200]} {v["how"][:300]}')
        R = r['res'] or {}
        print(f'# job {r["name"]}: {"VIOLATED" if any(v["confirmed"] for v in r["viol"]) or r["valfail"] else r["status"]} {r["time"]:.1f}s (sym {r["symtime"]:.1f}s) asserts={sum(R.get("asserts", {}).values())} solver={R.get("solver", {}).get("queries", 0)}q validated={r["val"]}' + ('  INCONCLUSIVE: ' + ' | '.join(r['why'])[:1500] if r['why'] else ''))
    fns = set(); hs = set()
    for r in rs:
        for f in (r['res'] or {}).get('functions', []):
            if not f.startswith(('std::', '__gnu', 'Spec::', 'sym_', 'void std::', 'operator', 'bool std::')): fns.add(f)
    S = lambda k: sum((r['res'] or {}).get(k, 0) for r in rs)
    SS = lambda k: sum((r['res'] or {}).get('solver', {}).get(k, 0) for r in rs)
    G = lambda k: sum((r['res'] or {}).get('goals', {}).get(k, 0) for r in rs)
    cov = {
        'states': S('paths') + S('forks'), 'transitions': S('instructions'), 'traces_validated_against_impl': sum(r['val'] for r in rs),
        'samples': [{'job': r['name'], 'bounds': r['job'].get('bounds', ''), 'status': r['status'], 'inputs_symbolic_bytes': (r['res'] or {}).get('inputs', {}), 'assertions': (r['res'] or {}).get('asserts', {}), 'why_inconclusive': r['why'], 'seconds': round(r['time'], 1), 'counterexamples': [{k: str(v.get(k, ''))[:400] for k in ('id', 'msg', 'where', 'how')} for v in r['viol']]} for r in rs],
        'functions_encoded': sorted(fns)[:400], 'functions_encoded_count': len(fns),
        'rule': 'states = symbolic paths plus forks (each stands for all values of the symbolic inputs); transitions = IR instructions executed symbolically; traces_validated = native runs of the same harness on the real code that agreed',
        'assertions_checked': sum(sum((r['res'] or {}).get('asserts', {}).values()) for r in rs),
        'goals_by_normalisation': G('by_normalisation'), 'goals_by_case_split': G('by_case_split'), 'goals_by_solver': G('by_solver'),
        'queries': SS('queries'), 'queries_full': SS('full_queries'), 'solver_unknown': SS('unknown'), 'solver_seconds': round(SS('time'), 3), 'merges': S('merges'), 'terms': S('terms'), 'hash_applications': S('hash_applications'),
        'jobs': len(rs), 'jobs_decided': sum(1 for r in rs if r['status'] == 'ok'), 'jobs_inconclusive': [r['name'] for r in rs if r['status'] != 'ok'],
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': J.ASSUME.get('*', []) + J.ASSUME.get(prop, []), 'wall_s': round(time.time() - T0, 2), 'violations': nv}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'# {prop} {tier}: {len(rs)} jobs, {cov["jobs_decided"]} decided, {nv} violations, {ev["wall_s"]}s')
    if '--keep' not in args: shutil.rmtree(W, ignore_errors=True)
    return 1 if nv else 0
if __name__ == '__main__': sys.exit(main())
