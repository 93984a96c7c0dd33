#!/usr/bin/env python3
"""Checks that the tools are there. Nothing is built ahead: every check builds from
the current tree."""
import shutil, subprocess, sys
bad = [t for t in ("cargo", "cargo-kani", "verus") if not shutil.which(t)]
if bad:
    print("missing:", bad)
    sys.exit(1)
print(subprocess.run(["cargo", "kani", "--version"], capture_output=True, text=True).stdout.strip())
