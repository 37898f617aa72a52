#!/usr/bin/env python3
"""setup_cmd: the checks build what they need themselves; only report tools."""
import shutil
import sys
for t in ("java", "g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("ready")
