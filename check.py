#!/usr/bin/env python3
"""check.py <property id> [--thorough] [-v] [@scenario-substring]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    from sa.verdict import main
    sys.exit(main(sys.argv[1:]))
