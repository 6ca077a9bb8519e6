#!/usr/bin/env python3
"""Nothing is installed: checks build what they need. This only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "ar") if not shutil.which(t)]
if missing: sys.exit("missing: %s" % missing)
print("ok")
