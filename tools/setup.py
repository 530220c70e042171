#!/usr/bin/env python3
"""Checks that the toolchain the checks need is present (every check builds what
it needs from the working tree itself)."""
import os
import sys
missing = [p for p in ("/usr/bin/clang++", "/usr/bin/g++-13", "/usr/lib/x86_64-linux-gnu/libxxhash.so.0") if not os.path.exists(p)]
print("missing: %s" % missing if missing else "toolchain ok")
sys.exit(1 if missing else 0)
