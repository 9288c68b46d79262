#!/usr/bin/env python3
"""Compiles every harness once, so that a broken toolchain shows early and later builds find a warm compiler cache."""
import os
import shutil
import sys
import tempfile

import run

names = sorted(set(run.HARNESS.values()))
for name in names:
    if not os.path.isdir(os.path.join(run.VERIF, "harness", name)):
        continue
    scratch = tempfile.mkdtemp(prefix="gomorphy_verif_")
    try:
        run.build(scratch, name, run.go_env(scratch))
        print("built", name, flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(0)
