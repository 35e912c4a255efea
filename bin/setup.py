#!/usr/bin/env python3
"""There is nothing to prebuild: every check compiles what it needs from /repo's
working tree. This only makes sure that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "bison", "flex", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok")
