"""Environment: makes the code under test (from /repo) and Hypothesis importable, without network or caches."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)


def scratch_dir():
    """A private directory for matplotlib/font caches and for files the checks write; removed by the runner."""
    return tempfile.mkdtemp(prefix="fvcheck-")


setup()
