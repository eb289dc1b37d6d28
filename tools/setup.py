#!/usr/bin/env python3
"""Nothing has to be installed: every check builds what it needs. This only says whether it could."""
import shutil, sys
missing = [t for t in ("go", "gcc", "git") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
