#!/usr/bin/env python3
"""Checks that the tools the checks call are installed; nothing to build."""
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "python3") if not shutil.which(t)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
