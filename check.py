#!/opt/venv/bin/python
"""check.py CNN [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from rv import core  # noqa: E402

if __name__ == "__main__":
    code = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
