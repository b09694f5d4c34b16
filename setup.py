#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs. This only validates the sandbox."""
import shutil
import sys

missing = [t for t in ("g++", "clang++", "valgrind") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
import checks  # noqa: E402,F401
print("ok:", len(checks.CHECKS), "checks")
