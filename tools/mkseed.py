#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ for every planted change in seeds.py; with -t also builds a patched copy and runs the demo on both trees.
import os, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import seeds
only = [a for a in sys.argv[1:] if a[0] != '-']
for id, prop, edits, src, demo, needs, what in seeds.S:
    if only and id not in only: continue
    d = f'{V}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix='seed'); subprocess.run(['cp', '-a', '/repo/.', t + '/r'] if 0 else ['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for f, a, b in edits:
        p = f'{t}/r/{f}'; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a)); open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', t + '/r', 'diff'], stdout=subprocess.PIPE, check=True).stdout)
    if src.endswith('.sh'): shutil.copy(f'{V}/tools/seedkit/{src}', d + '/demo.sh')
    elif src == 'rs':
        for n in os.listdir(f'{V}/tools/seedkit/rs'): shutil.copy(f'{V}/tools/seedkit/rs/{n}', d)
    else:
        shutil.copytree(f'{V}/tools/seedkit/stubs', d + '/stubs'); shutil.copy(f'{V}/tools/seedkit/demo.sh', d); shutil.copy(f'{V}/tools/seedkit/{src}.sh', d + '/sources.sh')
    for n, body in (demo if isinstance(demo, dict) else {'demo.cpp': demo}).items(): open(f'{d}/{n}', 'w').write(body)
    os.chmod(d + '/demo.sh', 0o755); json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    if '-t' in sys.argv:
        a = subprocess.run([d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT); b = subprocess.run([d + '/demo.sh'], cwd=t + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(id, prop, 'unchanged:', a.returncode, 'patched:', b.returncode, '' if a.returncode == 0 and b.returncode not in (0, 2) else '  <<<<< BAD', (a.stdout if a.returncode else b.stdout).decode()[:150].replace('\n', ' | '), flush=True)
    shutil.rmtree(t)
