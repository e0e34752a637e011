#!/usr/bin/env python3
"""nothing is built ahead: checks the tools that the checks need"""
import shutil, sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from engine import build
need = [build.CLANG, build.OPT] if hasattr(build, 'CLANG') else ['clang++-18', 'opt-18']
miss = [t for t in need if not shutil.which(t)]
if miss:
    print('missing tools: ' + ', '.join(miss)); sys.exit(1)
print('tools present: ' + ', '.join(need))
