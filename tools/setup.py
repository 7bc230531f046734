#!/usr/bin/env python3
"""checks that the tools the checks need are there; the checks build everything themselves from /repo"""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
