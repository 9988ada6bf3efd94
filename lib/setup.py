#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's working tree itself. This
only makes sure that the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
missing = [t for t in ("g++", "ar") if not shutil.which(t)]
if missing:
    sys.exit("missing: %s" % missing)
print("ok")
