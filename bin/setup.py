#!/usr/bin/env python3
"""Verifies that the tools that the checks need are present. Checks build what they need."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "clang++", "clang") if not shutil.which(t)]
if missing:
    print("missing:", ", ".join(missing))
    sys.exit(1)
print("ok")
