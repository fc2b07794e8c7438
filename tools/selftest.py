#!/usr/bin/env python3
"""setup_cmd: the checks need nothing built beforehand. Sees that the tools they use are there and that they import."""
import os, sys, shutil, importlib
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
for t in ('g++', 'make'):
    if not shutil.which(t):
        sys.exit('%s is missing' % t)
n = 0
for f in sorted(os.listdir(os.path.join(ROOT, 'checks'))):
    if f.startswith('c') and f.endswith('.py'):
        importlib.import_module('checks.' + f[:-3])
        n += 1
print('%d checks' % n)
