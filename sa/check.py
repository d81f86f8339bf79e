#!/usr/bin/env python3
"""check.py CXX: decide one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import frame

if __name__ == '__main__':
    sys.exit(max(frame.run_check(p) for p in sys.argv[1:]))
