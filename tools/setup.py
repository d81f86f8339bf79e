#!/usr/bin/env python3
"""Nothing is built ahead of time: every check compiles /repo itself.  Verify the tools are there."""
import shutil, sys
for t in ('clang++-18', 'opt-18', 'llvm-cxxfilt-18', 'c++filt'):
    print(t, shutil.which(t))
sys.exit(0 if shutil.which('clang++-18') and shutil.which('opt-18') else 1)
