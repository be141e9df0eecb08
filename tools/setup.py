#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework needs are there and that the monitoring runtime builds."""
import os, shutil, subprocess, sys
for t in ('g++', 'objcopy', 'addr2line', 'python3'):
    if not shutil.which(t):
        sys.exit(f'missing tool {t}')
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(f'{v}/build', exist_ok=True); os.makedirs(f'{v}/evidence', exist_ok=True)
r = subprocess.run(['g++', '-std=c++20', '-O2', '-w', '-fno-builtin-malloc', '-c', f'{v}/vrt/vrt.cpp', '-o', f'{v}/build/setup-probe.o'])
sys.exit(r.returncode)
