"""concrete fit objects for the bounded stand-ins"""
import copy

import numpy as np

from . import loader  # noqa: F401


def dataset(rng, n=12, per=2, weights=False, dB=False, start="2020-01-01", **cols):
    import pandas as pd

    idx = pd.DatetimeIndex(np.repeat(pd.date_range(start, periods=-(-n // per), freq="D"), per)[:n])
    d = dict(inc=rng.uniform(.3, 1., n), sig=rng.uniform(.05, .3, n))
    if dB:
        d["sig"] = 10 * np.log10(d["sig"])
    if weights:
        d["data_weights"] = rng.uniform(.5, 2., n)
    d.update(cols)
    return pd.DataFrame(d, index=idx)


DEFS = {"omega": [True, .3, "2D", ([.01], [.6])], "tau": [True, .4, None, ([.01], [1.])], "NormBRDF": [False, .3], "bsf": [False, .1]}


def set_V_SRF(omega, tau, NormBRDF, **kw):
    from rt1 import surface as S, volume as V

    return V.HenyeyGreenstein(t=.3, ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=.25, ncoefs=3, NormBRDF=NormBRDF)


def simple(rng, sig0=False, dB=False, int_Q=False, defdict=None, vs=set_V_SRF, ds=None, **k):
    from rt1.rtfits import Fits

    return Fits(sig0=sig0, dB=dB, dataset=dataset(rng, dB=dB) if ds is None else ds, defdict=copy.deepcopy(DEFS if defdict is None else defdict),
                set_V_SRF=vs, int_Q=int_Q, verbose=0, **k)
