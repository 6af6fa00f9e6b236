#!/usr/bin/env python3
"""replay.py prop job tier kind model inputs [args]: rebuild a harness natively and run one counterexample"""
import sys, os
prop, job, tier, kind, model, inp = sys.argv[1:7]; extra = sys.argv[7:]
sys.argv = ['run.py', prop, '--tier', tier]
import importlib.util
V = os.path.dirname(os.path.abspath(__file__))
src = open(V + '/run.py').read().replace("shutil.rmtree(RP, ignore_errors=True); os.makedirs(RP)", "").replace("build/run/{prop}", "build/run/replay-{prop}")
g = {'__name__': 'replay', '__file__': V + '/run.py'}; exec(compile(src, 'run.py', 'exec'), g)
j = next(x for x in g['J'].JOBS[prop] if x['name'] == job)
exe, e = g['build_job'](j, kind, model == '1')
if e: print(e); sys.exit(3)
cmd = [exe] + (['-i', inp] if not extra else []) + (['-m'] if model == '1' else []) + extra
if kind == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
rc, o = g['sh'](cmd, 600, env=g['ENV']); print(o); sys.exit(rc)
