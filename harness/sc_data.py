"""Loading data: operations of spec/DataLoad.tla on a real model."""
import os
import shutil
import datetime
import numpy as np
import pandas as pd
from common import fs, exc

here = os.path.dirname(os.path.abspath(__file__))
OBS = ["GDP", "Infl", "FFR"]
LETTERS = ["r%02d" % i for i in range(40)]


def index(op):
    n, k = op["n"], op["kind"]
    t = [op["t0"] + i * op["step"] for i in range(n)]
    if k in ("Q", "M", "Y"):
        return pd.DatetimeIndex([pd.Timestamp(year=x // 12, month=x % 12 + 1, day=1) for x in t])
    if k in ("PQ", "PM"):
        return pd.PeriodIndex([pd.Period(year=x // 12, month=x % 12 + 1, freq=k[1]) for x in t])
    if k in ("int", "int2"):
        return pd.Index(t)
    if k == "float":
        return pd.Index([float(x) for x in t])
    return pd.Index([LETTERS[x] for x in t])


def bound(op, per, unit, form):
    """the boundary as an object a user may pass; form selects among equivalent ones"""
    k = op["kind"]
    if k in ("int", "int2"):
        return [per[0], np.int64(per[0]), per[0]][form]
    if k == "float":
        return [float(per[0]), per[0], np.float64(per[0])][form]
    if k == "str":
        return LETTERS[per[0]]
    y, m = per[0] // 12, per[0] % 12 + 1
    if unit == 12:
        return ["%d" % y, y, "%d" % y][form]
    if unit == 3:
        return ["%dQ%d" % (y, (m - 1) // 3 + 1), pd.Period(year=y, month=m, freq="Q"), "%dq%d" % (y, (m - 1) // 3 + 1)][form]
    if unit == 1:
        return ["%d-%02d" % (y, m), pd.Period(year=y, month=m, freq="M"), "%02d/%d" % (m, y)][form] if form < 2 else "%d-%02d" % (y, m)
    return [pd.Timestamp(year=y, month=m, day=1), "%d-%02d-01" % (y, m), datetime.datetime(y, m, 1)][form]


def run(sc, tmp):
    from pydsge import DSGE
    shutil.copy(os.path.join(here, "pm.yaml"), os.path.join(tmp, "pm.yaml"))
    mod = DSGE.read(os.path.join(tmp, "pm.yaml"))
    frames, ev = [], []
    good = None         # frame of the data in place, as it was

    def shown(d, df):
        pos = list(df.index)
        return {"rows": [pos.index(l) + 1 if l in pos else 0 for l in d.index], "cols": [str(c) for c in d.columns],
                "vals": [[int(x) if float(x).is_integer() else -1 for x in r] for r in d.values]}

    for op in sc["ops"]:
        e = dict(op)
        try:
            if op["op"] == "load":
                if op["form"] == "frame":
                    cols = op["cols"]
                    A = np.array([[(1 + OBS.index(c) if c in OBS else 7) * 1000 + op["salt"] * 100 + i for c in cols] for i in range(1, op["n"] + 1)], dtype=float)
                    A = A.reshape(op["n"], len(cols))
                    for i, c in op["nans"]:
                        A[i - 1, cols.index(c)] = np.nan
                    df = pd.DataFrame(A, index=index(op), columns=cols)
                else:
                    df = np.ones((op["n"], 3))
                before = df.copy()
                kw = {}
                if "from" in op:
                    kw["start"] = bound(op, op["from"], op["fu"], op["ff"])
                if "upto" in op:
                    kw["end"] = bound(op, op["upto"], op["uu"], op["uf"])
                try:
                    d = mod.load_data(df, **kw)
                    good = before
                    e["ret"] = shown(d, before)
                    e["ok"] = True
                    frames.append(df)
                except Exception as err:
                    e.update(exc(err))
                e["same"] = bool(before.equals(df) and list(before.columns) == list(df.columns)) if op["form"] == "frame" else True
            elif op["op"] == "edit":
                for df in frames:
                    df.iloc[:, :] = -5.0
                    df.values[:] = -6.0
            elif op["op"] == "store":
                if hasattr(mod, "data"):
                    mod.save(os.path.join(tmp, "x.npz"), verbose=False)
                    m2 = DSGE.load(os.path.join(tmp, "x.npz"))
                    e["back"] = shown(m2.data, good)["vals"]
            e.setdefault("ok", True)
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        has = getattr(mod, "data", None) is not None
        e["now"] = dict(shown(mod.data, good), has=True, idx=type(mod.data.index) is type(good.index) and mod.data.index.dtype == good.index.dtype) if has and good is not None else {"has": bool(has), "rows": [], "vals": [], "cols": [], "idx": True}
        ev.append(e)
    return {"ev": ev}
