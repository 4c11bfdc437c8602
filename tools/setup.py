#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles its own harness. Verifies that the tools are there."""
import shutil, sys, os
missing = [t for t in ('g++-14', 'clang++') if not shutil.which(t)]
if not (shutil.which('g++-14') or shutil.which('g++')):
    sys.exit('no C++ compiler')
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ready' + (', missing: ' + ' '.join(missing) if missing else ''))
