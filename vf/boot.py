"""Path set-up: forcepho and its dependencies from /opt/venv + /repo, the
solver bindings from the tooling venv (appended, so it never shadows)."""
import os
import sys
import types
import warnings

warnings.filterwarnings("ignore")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
REPO = os.environ.get("VF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.path.exists(os.path.join(REPO, "forcepho", "_version.py")):
    m = types.ModuleType("forcepho._version")
    m.__version__ = "0"
    sys.modules["forcepho._version"] = m
