#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil
import sys

missing = [t for t in ("cargo", "z3", "z3-new", "cvc5") if shutil.which(t) is None]
if missing:
    print("missing tools: " + ", ".join(missing))
    sys.exit(1)
print("ok")
