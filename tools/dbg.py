#!/usr/bin/env python3
"""Build a check's binaries into /tmp/dbg for a debugger: tools/dbg.py C21"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, checks
pid = sys.argv[1]
os.makedirs("/tmp/dbg", exist_ok=True)
print(check.build(pid, checks.CHECKS[pid], "/tmp/dbg"))
