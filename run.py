#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough] [--seed N] | replay <file> | selftest"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import checks  # noqa: E402
sys.exit(checks.main(sys.argv[1:]))
