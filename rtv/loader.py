"""imports the code under verification from /repo's working tree"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("RTV_REPO", "/repo")
_scratch = tempfile.mkdtemp(prefix="rtv_")
atexit.register(shutil.rmtree, _scratch, True)
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(_scratch, "pyc")
_src = "/opt/vp/mplconfig"
_mpl = os.path.join(_scratch, "mpl")
if os.path.isdir(_src):
    shutil.copytree(_src, _mpl)
else:
    os.makedirs(_mpl)
os.environ["MPLCONFIGDIR"] = _mpl
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import logging
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import numpy as np
import scipy.special as _ss


def _wrap(uf):
    def f(*a, **k):
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
            from .term import SymArray, apply_ufunc

            r = apply_ufunc(uf.__name__, [np.asarray(x) for x in a])
            return r.view(SymArray) if isinstance(r, np.ndarray) else r
        return uf(*a, **k)

    f.__name__ = uf.__name__
    return f


_ss.expi = _wrap(_ss.expi)
_ss.expn = _wrap(_ss.expn)

import rt1

if not os.path.realpath(rt1.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError(f"rt1 imported from {rt1.__file__}, not from {REPO}")


def scratch(name):
    p = os.path.join(_scratch, name)
    os.makedirs(p, exist_ok=True)
    return p


def _reg():
    import sys

    import sympy  # noqa: F401
    from .term import SymFloat

    _conv = sys.modules['sympy.core.sympify'].converter

    _conv[SymFloat] = lambda x: x.sym._sympy_()


_reg()

import importlib

for _m in ("rt1", "surface", "volume", "scatter", "rtfits", "general_functions", "rtmetrics", "rtfits_mp_functions", "rtprocess", "rtresults", "processing_config"):
    try:
        importlib.import_module("rt1." + _m)
    except ImportError:
        pass
