#!/usr/bin/env python3
"""Each check builds the simulator itself, from /repo's working tree; here it
is only made sure that what that needs is installed."""
import shutil, sys
missing = [t for t in ("clang++", "ninja", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ready")
