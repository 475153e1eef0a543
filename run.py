#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay file]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import env  # noqa
from lib.core import main
if __name__ == "__main__":
    sys.exit(main())
