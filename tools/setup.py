#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there; every check builds what it needs from /repo's current tree."""
import shutil, subprocess, sys
missing = [t for t in ("verus", "cargo", "python3") if not shutil.which(t) and not shutil.which("/root/.cargo/bin/" + t)]
if missing: print("missing tools:", missing); sys.exit(1)
print(subprocess.run(["verus", "--version"], capture_output=True, text=True).stdout.strip())
