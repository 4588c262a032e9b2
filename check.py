#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main())
