#!/usr/bin/env python3
"""Checks that the tools are there and that the harness crate builds. The checks do not depend on its results."""
import os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
work = tempfile.mkdtemp(prefix='setup-', dir=os.path.join(VERIF, 'work'))
try:
    for tool in ('cbmc', 'goto-cc', 'goto-instrument'):
        if not os.path.exists('/root/.kani/kani-0.68.0/bin/' + tool):
            sys.exit('missing ' + tool)
    subprocess.check_call(['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', work],
                          cwd=os.path.join(VERIF, 'harness'))
finally:
    shutil.rmtree(work, ignore_errors=True)
