#!/opt/venv/bin/python
"""usage: run.py <PROPERTY> [quick|thorough]"""
import importlib
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
# always the working tree of /repo, never a stale install
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
warnings.simplefilter("ignore")

from vlib import core  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(f"checks.{prop.lower()}")
    sys.exit(core.main(prop, tier, mod.check))
