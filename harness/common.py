import numpy as np


def fs(x):
    """a float as the specification's real"""
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def fv(v):
    return [fs(x) for x in np.asarray(v).ravel()]


def fm(a):
    return [fv(r) for r in np.asarray(a)]


def rec(mod, x, names):
    """named values of the declared variables out of a state"""
    vv = [str(v) for v in mod.vv]
    return {n: fs(x[vv.index(n)]) for n in names}


def exc(e):
    return {"ok": False, "exc": type(e).__name__, "msg": str(e)[:300]}
