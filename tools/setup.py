#!/usr/bin/env python3
"""Nothing is prebuilt (checks rebuild from /repo); verify that the tools are there."""
import shutil, sys
missing = [t for t in ("java", "gcc", "clang") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
