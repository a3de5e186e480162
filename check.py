#!/opt/venv/bin/python
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from kmon import boot  # noqa: F401  (before anything imports koreo)
from kmon.runner import main

if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
