#!/usr/bin/env python3
"""Build everything once from the committed files (checks rebuild what changed)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import C
want = {}
for k in C.values():
    want.setdefault('asan' if k['binary'].endswith('.py') else k['variant'], set()).add('parted' if k['binary'].endswith('.py') else k['binary'])
for v, t in want.items():
    r = subprocess.run([sys.executable, os.path.join(HERE, 'build.py'), v, *sorted(t)])
    if r.returncode:
        sys.exit(r.returncode)
