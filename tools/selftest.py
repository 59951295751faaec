#!/usr/bin/env python3
"""setup_cmd: nothing has to be built ahead (checks build from /repo's current tree); this only
verifies that the tools the checks need are present."""
import os, shutil, sys
need = ["gcc", "g++", "clang", "clang++", "strace", "python3"]
missing = [n for n in need if not shutil.which(n)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
