#!/usr/bin/env python3
# Nothing is installed: every check compiles its harness itself. This only verifies the toolchain.
import subprocess, sys
r = subprocess.run(["clang++", "--version"], capture_output=True, text=True)
print(r.stdout.splitlines()[0] if r.stdout else r.stderr); sys.exit(r.returncode)
