#!/usr/bin/env python3
"""Check that what the monitors need is there (every check builds for itself)."""
import subprocess, sys
for c in (["rustc", "+nightly-2024-07-07", "-V"], ["cargo", "+nightly-2024-07-07", "-V"]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", p.stdout.strip())
    if p.returncode:
        sys.exit(1)
