#!/opt/venv/bin/python
"""setup: nothing is compiled; make sure the engine runs in this sandbox."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.exit(subprocess.call([sys.executable, "check.py", "SELFTEST", "--only",
                          "numbers"], cwd=ROOT))
