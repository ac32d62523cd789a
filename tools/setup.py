#!/usr/bin/env python3
"""Checks that the tools used by the checks are there (each check builds its monitors itself)"""
import shutil, sys
missing = [t for t in ("cargo", "rustc", "valgrind", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing), file=sys.stderr)
sys.exit(1 if missing else 0)
