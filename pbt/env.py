"""Process set-up shared by every check.

Must be imported before numpy / obp.  It
  * pins the numerical libraries to one thread and matplotlib to a scratch
    config directory of our own,
  * makes ``import obp`` resolve to /repo's working tree (never to a copy),
  * makes hypothesis importable from the tool venv without exposing any other
    package of that venv to the code under test.
"""
import os
import sys
import tempfile

for _k, _v in {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "",
    "TQDM_DISABLE": "1",
}.items():
    os.environ[_k] = _v

_MPL = os.path.join(tempfile.gettempdir(), "verif-mpl-%d" % os.getuid())
os.makedirs(_MPL, exist_ok=True)
os.environ["MPLCONFIGDIR"] = _MPL

sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# /repo first: the code under test is the working tree.
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)

_TOOL_SITES = [
    os.path.join(VERIF, ".deps"),
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


def _import_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    for site in _TOOL_SITES:
        if os.path.isdir(os.path.join(site, "hypothesis")):
            sys.path.append(site)
            try:
                import sortedcontainers  # noqa: F401
                import hypothesis  # noqa: F401
                import hypothesis.strategies  # noqa: F401
                import hypothesis.internal.conjecture.engine  # noqa: F401

                return
            finally:
                sys.path.remove(site)
    raise ImportError("hypothesis not found in %r" % (_TOOL_SITES,))


_import_hypothesis()

import logging  # noqa: E402
import warnings  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import obp  # noqa: E402

if not os.path.abspath(obp.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise ImportError("obp was imported from %s, not from %s" % (obp.__file__, REPO))
