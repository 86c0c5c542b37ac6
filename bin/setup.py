#!/usr/bin/env python3
"""Builds the extractor and the harness (the checks also do this themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build_xt()
b, e = check.build_harness()
if not b:
    print(e); sys.exit(1)
import subprocess
subprocess.run([sys.executable, os.path.join(check.HERE, 'bin', 'mq.py'), 'M01', '--seed', '1', '--tier', 'quick', '--only', '0'], stdout=subprocess.DEVNULL, timeout=900)
print('ok')
