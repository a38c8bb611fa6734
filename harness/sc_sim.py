"""Simulation scenarios: read a generated model, solve it, step, expected paths, impulse responses."""
import numpy as np
from common import fs, rec, exc
import render


def run(sc, tmp):
    from pydsge import DSGE
    m = sc["model"]
    names = m["vars"]
    ev = []
    st = {"mod": None, "x": None}

    verb = int(sc.get("verb", 0))    # how much is printed must not matter

    def lk(op):
        a = {}
        if op.get("lmax", -1) >= 0:
            a["l_max"] = op["lmax"]
        if op.get("kmax", -1) >= 0:
            a["k_max"] = op["kmax"]
        return a

    def shockvec(mod, e):
        v = np.zeros(len(mod.shocks))
        for s, x in e.items():
            v[list(mod.shocks).index(s)] = float(x)
        return v

    def one(mod, size, op):
        e = {op["sh"]: fs(size)}
        x, (l, kk), flag = mod.t_func(st["x"].copy(), shockvec(mod, e), return_k=True)
        return {"e": e, "x": rec(mod, x, names), "l": int(l), "k": int(kk), "flag": int(flag), "path": [rec(mod, x, names)]}

    def edge(mod, op):
        """one-period steps right before and after a size of the shock at which the durations change"""
        key = lambda r: (r["l"], r["k"], r["flag"])
        grid = np.linspace(float(op["lo"]), float(op["hi"]), 13)
        res = [one(mod, z, op) for z in grid]
        cand = [i for i in range(12) if key(res[i]) != key(res[i + 1])]
        if not cand:
            return [res[0], res[-1]]
        i = cand[op["which"] % len(cand)]
        (a, ra), (b, rb) = (grid[i], res[i]), (grid[i + 1], res[i + 1])
        for _ in range(12):
            c = (a + b) / 2
            rc = one(mod, c, op)
            if key(rc) == key(ra):
                a, ra = c, rc
            else:
                b, rb = c, rc
        return [ra, rb]

    def do(op):
        k = op["op"]
        if k == "read":
            st["mod"] = DSGE.read(render.write(m, tmp, extra=sc.get("extra")))
            return {}
        mod = st["mod"]
        if k == "solve":
            mod.set_par("calib", verbose=verb, **lk(op))
            st["x"] = np.zeros(len(mod.vv))
            return {}
        if k == "again":
            # the horizon that was asked for stays in place
            mod.set_par("calib", verbose=verb)
            st["x"] = np.zeros(len(mod.vv))
            return {}
        if k == "reset":
            st["x"] = np.zeros(len(mod.vv))
            return {}
        if k == "step":
            kw = {}
            if op.get("setk"):
                kw["set_k"] = tuple(op["setk"])
            x, (l, kk), flag = mod.t_func(st["x"].copy(), shockvec(mod, op["e"]), return_k=True,
                                          linear=bool(op.get("linear", False)), verbose=verb, **kw)
            res = {"x": rec(mod, x, names), "l": int(l), "k": int(kk), "flag": int(flag)}
            # the path expected from here on
            path = [rec(mod, x, names)]
            y, a, b = x, int(l), int(kk)
            for s in range(op.get("ahead", 0)):
                a, b = (a - 1, b) if a > 0 else (0, max(b - 1, 0))
                y = mod.t_func(y.copy(), None, set_k=(a, b), return_flag=False)
                path.append(rec(mod, y, names))
            res["path"] = path
            st["x"] = x
            return res
        if k == "edge":
            return {"probes": edge(mod, op)}
        if k == "irfs":
            kw = {}
            if op.get("setk") is not None:
                kw["set_k"] = tuple(op["setk"]) if isinstance(op["setk"], list) else op["setk"]
            if op.get("state"):
                kw["state"] = st["x"].copy()
            X, LK, flag = mod.irfs([(s, float(z), int(t)) for s, z, t in op["shocks"]], T=op["T"],
                                   linear=bool(op.get("linear", False)), verbose=verb, **kw)
            res = {"X": [rec(mod, r, names) for r in X[[str(v) for v in mod.vv]].values],
                   "cols": [str(c) for c in X.columns],
                   "L": [int(v) for v in LK[0]], "K": [int(v) for v in LK[1]], "flag": int(flag)}
            return res
        raise RuntimeError("unknown op " + k)

    for op in sc["ops"]:
        e = dict(op)
        try:
            e.update(do(op))
            e["ok"] = True
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        ev.append(e)
        if not e["ok"] and op["op"] in ("read", "solve"):
            break
    return {"model": m, "ev": ev}
