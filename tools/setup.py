#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo's current tree); verifies that the tools needed are there."""
import subprocess, sys
for c in (['g++', '--version'], ['clang++', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode: sys.exit(1)
print('ok')
