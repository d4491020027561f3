#!/usr/bin/env python3
"""Setup: every check builds what it needs from /repo, so there is only the toolchain to look at."""
import shutil, sys
missing = [t for t in ("g++", "mpiexec", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
