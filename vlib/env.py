"""Process environment shared by every check.

Must be imported before numpy/bayespy.  Nothing is written into /repo or
/opt/vp: byte code is not written, matplotlib gets a private config folder.
"""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The code under test comes from /repo's working tree, always first.
sys.path.insert(0, REPO)
# hypothesis and sortedcontainers come from the pre-installed tooling venv
# (same Python 3.12); appended last, so numpy, scipy etc. stay those of the
# build environment.
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)
