"""Models given as dictionaries of system matrices, next to the same models as files."""
import copy
import os
import numpy as np
from common import fs, fv, rec, exc
import render


def mats(m, how):
    """the matrices of the specification's model record"""
    V, S = list(m["vars"]), list(m["shocks"])
    n, ne, k = len(V), len(S), len(m["eqs"])
    AA, BB, CC, DD = np.zeros((k, n)), np.zeros((k, n)), np.zeros((k, n)), np.zeros((k, ne))
    fb, fc, fd = np.zeros(n), np.zeros(n), np.zeros(ne)

    def put(c, s, d, a, b, z, e):
        if s in S:
            e[S.index(s)] += c
        else:
            {1: a, 0: b, -1: z}[int(d)][V.index(s)] += c
    sc, con = float(how["eq"]), float(how["con"])
    for i, eq in enumerate(m["eqs"]):
        for c, s, d in eq:
            put(float(c) * (sc if i % 2 else 1.0), s, d, AA[i], BB[i], CC[i], DD[i])
    for c, s, d in m["con"]["terms"]:
        put(-float(c) * con, s, d, None, fb, fc, fd)
    fb[V.index(m["con"]["var"])] += con
    d = dict(AA=AA, BB=BB, CC=CC, DD=DD, fb=fb, fc=fc, vars=np.array(V), shocks=S, const_var=m["con"]["var"],
             x_bar=float(m["xbar"]))
    if m["xbkind"] == 3:
        del d["x_bar"]
    if np.any(fd) or not how["nofd"]:
        d["fd"] = fd
    if m["obs"]:
        Z, c = np.zeros((len(m["obs"]), n)), np.zeros(len(m["obs"]))
        for i, o in enumerate(m["obs"]):
            c[i] = float(o["const"])
            for a, s, _ in o["terms"]:
                Z[i, V.index(s)] += float(a)
        d.update(ZZ0=Z, ZZ1=c, observables=[o["name"] for o in m["obs"]])
    if how["swap"]:
        d = dict(reversed(list(d.items())))
    return d


PROBES = [{"e_u": 0.7, "e_z": -0.3}, {"e_u": 1.6, "e_z": 0.5}, {"e_u": 0.0, "e_z": 0.0}, {"e_u": -0.4, "e_z": 1.0}]


def digest(mod, m):
    names, S = m["vars"], [str(s) for s in mod.shocks]
    try:
        x = np.zeros(len(mod.vv))
        d = {"ok": True, "steps": [], "lks": [int(v) for v in mod.lks]}
        for n, pr in enumerate(PROBES):
            e = {s: pr[s] for s in S}
            y, (l, k), flag = mod.t_func(x.copy(), np.array([e[s] for s in S]), return_k=True, linear=n == 3)
            path = [rec(mod, y, names)]
            a, b, z = int(l), int(k), y
            for _ in range(3):
                a, b = (a - 1, b) if a > 0 else (0, max(b - 1, 0))
                z = mod.t_func(z.copy(), None, set_k=(a, b), return_flag=False)
                path.append(rec(mod, z, names))
            s = {"e": {k0: fs(v) for k0, v in e.items()}, "x": rec(mod, y, names), "l": int(l), "k": int(k),
                 "flag": int(flag), "linear": n == 3, "path": path}
            if m["obs"]:
                s["obs"] = fv(np.asarray(mod.obs(y[None]))[0])
            d["steps"].append(s)
            x = y
        if m["obs"]:
            d["onames"] = [str(o) for o in mod.observables]
        sh = [["e_u", 0.4, 0], ["e_u", 1.3, 2]]
        X, LK, flag = mod.irfs([tuple(s) for s in sh], T=7, verbose=False)
        d["irf"] = {"shocks": [[s, fs(z), t] for s, z, t in sh], "T": 7, "X": [rec(mod, r, names) for r in X[[str(v) for v in mod.vv]].values],
                    "cols": [str(c) for c in X.columns], "L": [int(v) for v in LK[0]], "K": [int(v) for v in LK[1]], "flag": int(flag)}
        return d
    except Exception as e:
        if type(e).__name__ == "Timeout":
            raise
        return exc(e)


def equal(a, b):
    ks = set(a) | set(b)
    ks -= {"l_max", "k_max"}
    return all(k in a and k in b and np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in ks)


def run(sc, tmp):
    from pydsge import DSGE, gen_sys_from_dict
    dicts, models, objs, ev = {}, {}, [], []
    for n, op in enumerate(sc["ops"]):
        e = dict(op)
        try:
            if op["op"] == "dict":
                dicts[op["d"]] = mats(op["m"], op["how"])
                models[op["d"]] = op["m"]
            elif op["op"] == "edit":
                old, new = dicts[op["d"]], mats(op["m"], op["how"])
                for k in [k for k in old if k not in new]:
                    del old[k]
                for k, v in new.items():
                    if op["inplace"] and isinstance(v, np.ndarray) and k in old and old[k].shape == v.shape and k != "vars":
                        old[k][...] = v
                    else:
                        old[k] = v
                models[op["d"]] = op["m"]
            else:
                d = dicts[op["d"]]
                if op["copy"]:
                    d = copy.deepcopy(d)
                before = copy.deepcopy(d)
                kw = {}
                if op["lmax"] >= 0:
                    kw["l_max"] = op["lmax"]
                if op["kmax"] >= 0:
                    kw["k_max"] = op["kmax"]
                if op["force"]:
                    kw["force_processing"] = True
                mod = gen_sys_from_dict(d, parallel=False, verbose=False, **kw)
                objs.append((mod, models[op["d"]]))
                m = models[op["d"]]
                sub = os.path.join(tmp, "t%d" % n)
                os.mkdir(sub)
                try:
                    tw = DSGE.read(render.write(m, sub))
                    kw.pop("force_processing", None)
                    tw.set_par("calib", **kw)
                    e["twin"] = digest(tw, m)
                except Exception as err:
                    if type(err).__name__ == "Timeout":
                        raise
                    e["twin"] = exc(err)
                e["digs"] = [digest(a, b) for a, b in objs]
                e["same"] = bool(equal(before, d))
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        ev.append(e)
    return {"ev": ev}
