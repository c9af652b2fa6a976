#!/usr/bin/env python3
"""Nothing to install: checks that the tools the checks need are present."""
import shutil, sys
for t in ('g++', 'python3'):
    if not shutil.which(t): sys.exit('missing ' + t)
print('ok')
