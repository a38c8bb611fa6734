"""Filter runs with generated models (spec/Filt.tla)."""
import copy
import numpy as np
import pandas as pd
from common import fs, fm, rec, exc
from sc_sess import draws, floats
import render


def run(sc, tmp):
    from pydsge import DSGE
    m = sc["model"]
    names = m["vars"]
    mod = None
    ev = []

    def data(op):
        Z = floats(op["Z"])
        idx = pd.period_range("1999Q1", periods=len(Z), freq="Q").to_timestamp()
        mod.load_data(pd.DataFrame(Z, columns=[o["name"] for o in m["obs"]], index=idx))

    st = {"x": None}
    order = lambda: [list(mod.shocks).index(s) for s in m["shocks"]]

    def shock(e):
        v = np.zeros(len(mod.shocks))
        for s, x in e.items():
            v[list(mod.shocks).index(s)] = float(x)
        return v

    def source(op):
        n = len(op["members"])
        eps = np.array([[shock(e) for e in x["eps"]] for x in op["members"]])
        init = np.array([st["x"] if x["here"] else np.zeros(len(mod.vv)) for x in op["members"]])
        return {"pars": np.array([list(mod.par)] * n), "resid": eps, "init": init}

    def series(X):
        return [rec(mod, x, names) for x in X]

    def use(op):
        k = op["op"]
        vv = [str(v) for v in mod.vv]
        if k == "step":
            x, _ = mod.t_func(st["x"].copy(), shock(op["e"]))
            st["x"] = x
            return {"x": rec(mod, x, names)}
        if k in ("traj", "kmap"):
            q = np.hstack(([st["x"][vv.index(str(s))] for s in mod.svv], shock(op["e"])))
            kw = {a: v for a, v in zip("lk", op["lk"]) if v >= 0}
            if k == "traj":
                return {"ret": [fs(z) for z in mod.traj(q, verbose=False, **kw)]}
            ls, ks = mod.k_map(q, verbose=False, **kw)
            return {"ls": [fs(z) for z in ls], "ks": [fs(z) for z in ks]}
        src = source(op)
        keep = copy.deepcopy(src)
        if k == "simu":
            kw = {}
            if "mask" in op:
                g = floats(op["mask"])
                msk = np.empty_like(g)
                msk[:, order()] = g
                kw["mask"] = msk
                if op["oper"] != "mul":
                    kw["operation"] = np.add if op["oper"] == "add" else lambda a, b: a
            X, (L, K), flags = mod.simulate(src, linear=op["linear"], **kw)
            Z = mod.obs(X)
            return {"same": all(np.array_equal(keep[n], src[n]) for n in src),
                    "res": [{"X": series(X[i]), "L": [int(v) for v in L[i]], "K": [int(v) for v in K[i]], "flag": int(flags[i]), "Z": fm(Z[i])} for i in range(len(X))]}
        if k == "nhd":
            T = len(op["members"][0]["eps"]) + 1
            mod.load_data(pd.DataFrame(np.ones((T, len(m["obs"]))), columns=[o["name"] for o in m["obs"]],
                                       index=pd.period_range("1999Q1", periods=T, freq="Q").to_timestamp()))
            hd, means = mod.nhd(src, linear=op["linear"])
            return {"hd": [series(hd[j][vv].values) for j in order()], "means": series(means[vv].values)}
        vd = mod.gfevd(src, horizon=op["horizon"], linear=op["linear"], verbose=False)
        rows = [str(r) for r in vd.index]
        return {"rows": [rows[j] for j in order()], "vd": series(vd[vv].values[order()])}

    def probes():
        """Smoothed states with two explicit cut-offs: they agree unless the problem is too close to singular."""
        r = []
        for rcond in (1e-14, 1e-8):
            X, _ = mod.run_filter(rcond=rcond)
            r.append(fm(np.array(X)))
        return r

    def do(op):
        nonlocal mod
        if op["op"] == "read":
            mod = DSGE.read(render.write(m, tmp))
            return {}
        if op["op"] == "solve":
            mod.set_par("calib", verbose=0, **({"l_max": op["lmax"], "k_max": op["kmax"]} if op["lmax"] >= 0 else {}))
            st["x"] = np.zeros(len(mod.vv))
            return {}
        if op["op"] in ("step", "simu", "nhd", "gfevd", "traj", "kmap"):
            return use(op)
        data(op)
        R = floats(op["R"])
        if op["op"] == "extract":
            mod.create_filter(R=R, ftype="KF")
            a = mod.extract(verbose=False)
            X, _, _ = mod.simulate(a, linear=True)
            return {"X": [rec(mod, x, names) for x in X[0]], "x0": rec(mod, a["init"][0], names), "probe": probes()}
        if op["lin"]:
            mod.create_filter(R=R, ftype="KF")
            l1 = mod.get_ll()
            X, _ = mod.run_filter()
            X = np.array(X)
            l2 = mod.get_ll()
            return {"lls": [fs(l1), fs(l2), fs(mod.get_ll())], "X": [rec(mod, x, names) for x in X], "probe": probes()}
        mod.create_filter(R=R, N=op["N"], reduced_form=op["rf"])
        T, nz = len(op["Z"]), len(m["obs"])
        svv = [str(v) for v in (mod.svv if op["rf"] else mod.vv)]
        d = np.array(draws(op["N"] * T, nz, mod.filter.seed or 0, T), dtype=float)
        order = [list(mod.shocks).index(s) for s in m["shocks"]]
        U = {"x": draws(op["N"], len(svv), mod.filter.seed or 0, 1)[0], "e": [fm(x) for x in d[:, :, order]], "m": [fm(x) for x in d]}
        l1 = mod.get_ll()
        X = np.array(mod.run_filter(smoother=False))
        return {"U": U, "S": [n[:-4] if n.lower().endswith("_lag") else n for n in svv], "lls": [fs(l1), fs(mod.get_ll())],
                "xs": [fm(x) for x in np.swapaxes(X, 0, 1)]}

    for op in sc["ops"]:
        e = dict(op)
        try:
            e.update(do(op))
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        ev.append(e)
        if not e["ok"] and op["op"] in ("read", "solve"):
            break
    return {"model": m, "ev": ev}
