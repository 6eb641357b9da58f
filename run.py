"""usage: run.py C01 [quick|thorough] [case-regex]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "/repo" not in sys.path:
    sys.path.insert(0, "/repo")
from lib import harness  # noqa: E402

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    sys.exit(harness.main(sys.argv[1], tier, sys.argv[3] if len(sys.argv) > 3 else None))
