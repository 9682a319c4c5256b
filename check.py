#!/opt/venv/bin/python
"""Entry point: `check.py <property> [--tier quick|thorough] [--replay FILE]`."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

from symtorch.run import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
