#!/opt/venv/bin/python
"""Usage: run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
# never trust compiled files lying around in /repo: look for them in a place that does not exist
sys.pycache_prefix = "/nonexistent-verif-pycache"
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from lib import fw  # noqa: E402

sys.exit(fw.main(sys.argv[1:]))
