#!/usr/bin/env python3
"""run.py setup | run.py <property> [--replay FILE]"""
import sys, os, importlib, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import core
if sys.argv[1] == 'setup':
    core.setup(); sys.exit(0)
mod = importlib.import_module(sys.argv[1].lower())
c = mod.check()
if len(sys.argv) > 3 and sys.argv[2] == '--replay':
    d = json.load(open(sys.argv[3]))
    for j in c.jobs:
        if j.name == d['job']:
            rc, out = c.replay(j, d['values']); print(out)
            if rc != 1: rc, out = c.replay(j, d['values'], c.asan_cc()); print(out)
            sys.exit(1 if rc == 1 else 0)
    sys.exit('no such job')
if len(sys.argv) > 3 and sys.argv[2] == '--only':
    c.jobs = [j for j in c.jobs if sys.argv[3] in j.name]
sys.exit(c.finish())
