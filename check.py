#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--exe PATH]"""
import sys, os, argparse, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--exe')
    a = ap.parse_args()
    prop = importlib.import_module('checks.' + a.id.lower()).PROP
    sys.exit(engine.run(prop, 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.replay, a.exe, a.cases))


main()
