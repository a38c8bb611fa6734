"""Sessions with the parametric model (pm.yaml): all operations of spec/Session.tla on one real model object."""
import copy
import os
import shutil
import numpy as np
import pandas as pd
from common import fs, fv, fm, rec, exc

here = os.path.dirname(os.path.abspath(__file__))
NAMES = ["y", "Pi", "dy", "r", "u", "z", "vr"]
SHOCKS = ["e_z", "e_u", "e_r"]
DIG = [[0.2, 0.5, 0.1], [-0.1, 1.1, 0.0], [0.3, -0.4, 0.2]]
WARM = [[], [[0.3, 0.7, 0.0]], [[0.0, -0.8, 0.3], [0.2, 0.4, 0.0]], [[0.4, 1.1, -0.2], [0.0, 0.0, 0.0], [0.0, 0.2, 0.1]]]


def vec(v):
    return np.array([float(x) for x in v])


def floats(rows):
    return np.array([[float(x) for x in r] for r in rows])


def draws(n, d, seed, T):
    """standardised draws of the ensemble filter: a Latin hypercube, in T parts"""
    from scipy.stats.qmc import LatinHypercube, MultivariateNormalQMC
    u = MultivariateNormalQMC(np.zeros(d), cov_root=np.eye(d), engine=LatinHypercube(d, seed=seed)).random(n)
    return [fm(x) for x in u.reshape(T, n // T, d)]


class Sess:
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.verb = int(sc.get("verb", 0))  # how much is printed must not matter
        self.mod = None
        self.ret = self.passed = None       # last returned / passed object
        self.hd = None
        self.res = None                     # last result of extract

    # ------------------------------------------------------------ helpers
    def shock(self, e):
        """vector in the model's order out of one in the order of SHOCKS"""
        v = np.zeros(len(SHOCKS))
        for s, x in zip(SHOCKS, e):
            v[list(self.mod.shocks).index(s)] = float(x)
        return v

    def state(self, i):
        """a reachable state (linear steps from zero at the current parameters)"""
        x = np.zeros(len(self.mod.vv))
        for e in WARM[i]:
            x = self.mod.t_func(x, self.shock(e), linear=True, return_flag=False)
        return x

    def rec(self, x):
        return rec(self.mod, x, NAMES)

    def q(self, x, e):
        vv = [str(v) for v in self.mod.vv]
        return np.hstack(([x[vv.index(str(s))] for s in self.mod.svv], self.shock(e)))

    def lk(self, op):
        a = {}
        if op.get("lmax", -1) >= 0:
            a["l_max"] = op["lmax"]
        if op.get("kmax", -1) >= 0:
            a["k_max"] = op["kmax"]
        return a

    def digest(self, ll):
        mod = self.mod
        try:
            d = {"ok": True, "par": fv(mod.get_par())}
            x = np.zeros(len(mod.vv))
            for n, e in enumerate(DIG):
                x, (l, k), flag = mod.t_func(x, self.shock(e), return_k=True, linear=n == 2)
                d["s%d" % (n + 1)] = {"e": fv(e), "x": self.rec(x), "l": int(l), "k": int(k), "flag": int(flag)}
                if n == 0:
                    d["obs"] = fv(np.asarray(mod.obs(x[None]))[0])
            d["cov"] = fm(mod.get_cov())
            if hasattr(mod, "x_bar"):
                d["xbar"] = fs(mod.x_bar)
            if ll:
                d["ll"] = fs(mod.get_ll())
                d["R"] = fm(mod.filter.R)
                d.update(self.ensemble())
            return d
        except Exception as e:
            if type(e).__name__ == "Timeout":
                raise
            return exc(e)

    def members(self, op):
        """-> arrays for pydsge and the members as recorded"""
        ms = [dict(m) for m in op["members"]]
        inits = [self.state(m["x0"]) for m in ms]
        for m, x in zip(ms, inits):
            m["x0"] = self.rec(x)
        pars = np.array([vec(m["par"]) for m in ms])
        eps = np.array([[self.shock(e) for e in m["eps"]] for m in ms])
        return pars, eps, np.array(inits), ms

    # ------------------------------------------------------------ operations
    def op_read(self, op):
        from pydsge import DSGE
        f = os.path.join(self.tmp, "pm.yaml")
        shutil.copy(os.path.join(here, "pm.yaml"), f)
        if op.get("zero"):
            # an initial value of zero is a value
            with open(f) as h:
                txt = h.read()
            assert txt.count("rho_u: [None,") == 1
            with open(f, "w") as h:
                h.write(txt.replace("rho_u: [None,", "rho_u: [0.0,"))
        self.mod = DSGE.read(f, verbose=bool(self.verb))
        return {}

    def op_set(self, op):
        mod, how, kw = self.mod, op["how"], self.lk(op)
        kw["verbose"] = self.verb
        if how == "name":
            r = mod.set_par(op["name"], float(op["value"]), **kw)
        elif how == "vec":
            self.passed = vec(op["vec"])
            if op.get("aslist"):
                self.passed = list(self.passed)
            before = copy.copy(self.passed)
            r = mod.set_par(self.passed, **kw)
            if not np.array_equal(before, self.passed):
                raise RuntimeError("argument changed")
        elif how == "named":
            r = mod.set_par(op["name"], **kw)
        elif how == "none":
            r = mod.set_par(**kw)
        else:
            w = op["what"]
            if w == "unknown":
                r = mod.set_par("nosuch", 0.3)
            elif w == "derived":
                r = mod.set_par("kap", 0.3)
            elif w == "unknownset":
                r = mod.set_par("nosuchset")
            elif w == "length":
                r = mod.set_par(np.full(5, 0.4))
            elif w == "shock":
                r = mod.set_par("e_u", 0.3)
            elif w == "variable":
                r = mod.set_par("y", 0.3)
            elif w == "empty":
                r = mod.set_par(np.array([]))
        self.ret = r
        return {"ret": fv(r)}

    def op_get(self, op):
        mod, w = self.mod, op["what"]
        kw = {}
        if "vec" in op:
            self.passed = vec(op["vec"])
            kw["npar"] = self.passed
        if w in ("name", "derived", "nparname", "nparderived"):
            r = mod.get_par(op["name"], **kw)
            return {"ret": [fs(r)]}
        if w == "full":
            r = mod.get_par()
        elif w == "est":
            r = mod.get_par(full=False)
        elif w == "named":
            r = mod.get_par(op["name"])
        elif w == "namedest":
            r = mod.get_par(op["name"], full=False)
        elif w == "nparset":
            before = self.passed.copy()
            r = mod.set_par(op["name"], float(op["value"]), **kw)
            if not np.array_equal(before, self.passed):
                raise RuntimeError("argument changed")
        elif w == "dict":
            r = mod.get_par(asdict=True)
            self.ret = r
            if isinstance(r, tuple):
                assert all(isinstance(d, dict) for d in r), "not a dictionary"
                return {"ret": [{str(k): fs(v) for k, v in d.items()} for d in r]}
            return {"ret": [{str(k): fs(v) for k, v in r.items()}]}
        elif w == "dictest":
            r = mod.get_par(asdict=True, full=False)
            self.ret = r
            return {"ret": {str(k): fs(v) for k, v in r.items()}}
        elif w == "cov":
            r = mod.get_cov(**kw)
            self.ret = r
            return {"ret": fm(r)}
        elif w == "bad":
            r = mod.get_par(op["name"])
            return {"ret": [str(r)]}
        self.ret = r
        return {"ret": fv(r)}

    def op_edit(self, op):
        """edit what was handed out or passed in before"""
        for o in (self.ret, self.passed):
            if isinstance(o, np.ndarray) and o.flags.writeable:
                o[...] = 0.123
            elif isinstance(o, list):
                o[:] = [0.123] * len(o)
            elif isinstance(o, dict):
                for k in list(o):
                    o[k] = 0.123
            elif isinstance(o, tuple):
                for d in o:
                    if isinstance(d, dict):
                        d.clear()
        return {}

    def op_irfb(self, op):
        mod = self.mod
        kw = self.lk(op)
        forms = {"full": lambda s: (s[0], float(s[1]), int(s[2])), "two": lambda s: (s[0], float(s[1])), "str": lambda s: s[0]}
        sl = [forms[op.get("form", "full")](s) for s in op["shocks"]]
        if op.get("bare"):
            sl = sl[0]
        if op.get("setk"):
            kw["set_k"] = tuple(op["setk"])
        out = {}
        st = None
        if "x0" in op:
            st = self.state(op["x0"])
            out["x0"] = self.rec(st)
            kw["state"] = st
        pars = None
        if "pars" in op:
            pars = np.array([vec(p) for p in op["pars"]])
            if op.get("one"):
                pars = pars[0]
            elif op.get("aslist"):
                pars = [list(p) for p in pars]
        before = copy.deepcopy((sl, st, pars))
        X, LK, flag = mod.irfs(sl, pars=pars, T=op["T"], linear=bool(op.get("linear")), verbose=self.verb, **kw)
        out["same"] = bool(before[0] == sl and np.array_equal(np.array(before[1] if st is not None else []), np.array(st if st is not None else []))
                           and np.array_equal(np.array(before[2] if pars is not None else []), np.array(pars if pars is not None else [])))

        def one(X, L, K, flag):
            nan = bool(np.isnan(X).any())
            return {"nan": nan, "X": [] if nan else [self.rec(r) for r in X], "L": [] if nan else [int(v) for v in L],
                    "K": [] if nan else [int(v) for v in K], "flag": int(flag)}
        if pars is None or op.get("one"):
            out["res"] = [one(X[[str(v) for v in mod.vv]].values, LK[0], LK[1], flag)]
        else:
            n = len(X)
            out["res"] = [one(X[i], LK[i], LK[n + i], flag[i]) for i in range(n)]
        return out

    def op_simu(self, op):
        mod = self.mod
        kw = self.lk(op)
        pars, eps, inits, ms = self.members(op)
        maskok = True
        if "mask" in op:
            order = [list(mod.shocks).index(s) for s in SHOCKS]
            m = floats(op["mask"])
            msk = np.empty_like(m)
            msk[:, order] = m
            if op.get("frame"):
                # fill the model's own mask by the names of the shocks
                had = getattr(mod, "data", None)
                T = len(m)
                if had is None or len(had) != T + 1:
                    mod.load_data(pd.DataFrame(np.arange(3. * (T + 1)).reshape(-1, 3), columns=list(mod.observables),
                                               index=pd.period_range("2000Q1", periods=T + 1, freq="Q")))
                own = mod.mask
                maskok = bool(np.isnan(own.values.astype(float)).all() and own.shape == (T, 3)
                              and list(own.index) == list(mod.data.index[:-1]) and sorted(own.columns) == sorted(mod.shocks))
                for j, s in enumerate(SHOCKS):
                    own[s] = m[:, j]
                msk = own
            kw["mask"] = msk
            if op.get("oper") == "add":
                kw["operation"] = np.add
            elif op.get("oper") == "rep":
                kw["operation"] = lambda m, e: m
        src = {"pars": pars, "resid": eps, "init": inits}
        before = copy.deepcopy((src, kw.get("mask")))
        if self.verb:
            kw["verbose"] = self.verb
        if op.get("over"):
            # what is given by name comes before what the source holds
            over = {k: src[k] for k in op["over"]}
            src = {k: v[::-1] * 0.5 + 0.01 if k in over else v for k, v in src.items()}
            before = copy.deepcopy((src, kw.get("mask")))
            keep = copy.deepcopy(over)
            X, (L, K), flags = mod.simulate(src, linear=bool(op.get("linear")), **over, **kw)
            if not all(np.array_equal(keep[k], over[k]) for k in over):
                raise RuntimeError("argument changed")
        elif op.get("keys"):
            X, (L, K), flags = mod.simulate(pars=pars, resid=eps, init=inits, linear=bool(op.get("linear")), **kw)
        else:
            X, (L, K), flags = mod.simulate(src, linear=bool(op.get("linear")), **kw)
        same = all(np.array_equal(before[0][k], src[k]) for k in src)
        if "mask" in kw:
            same = same and np.array_equal(np.asarray(before[1]), np.asarray(kw["mask"]), equal_nan=True)
        return {"members": ms, "same": bool(same), "maskok": maskok,
                "res": [{"X": [self.rec(x) for x in X[i]], "L": [int(v) for v in L[i]], "K": [int(v) for v in K[i]], "flag": int(flags[i])}
                        for i in range(len(X))]}

    def op_obs(self, op):
        mod = self.mod
        r = np.random.RandomState(op["seed"])
        n = len(mod.vv)
        form = op["form"]
        out = {}
        if form == "single":
            X = r.randn(n)
            Z = mod.obs(X)
            out["cols"] = [str(c) for c in Z.columns]
            return dict(out, X=[[self.rec(X)]], Z=[fm(Z.values)])
        if form == "series":
            X = r.randn(op["T"], n)
            return dict(X=[[self.rec(x) for x in X]], Z=[fm(mod.obs(X))])
        X = r.randn(op["m"], op["T"], n)
        before = X.copy()
        if form == "pars":
            Z = mod.obs(X, pars=np.array([vec(p) for p in op["pars"]]))
        else:
            Z = mod.obs(X)
        if not np.array_equal(before, X):
            raise RuntimeError("argument changed")
        return dict(X=[[self.rec(x) for x in s] for s in X], Z=[fm(z) for z in Z])

    def op_ix(self, op):
        mod = self.mod
        names = op["names"]
        arg = names[0] if op.get("bare") else names
        if op["kind"] == "v":
            r = mod.vix(arg, dontfail=True) if op.get("dontfail") else mod.vix(arg)
        else:
            r = mod.oix(arg)
        return {"ret": [int(i) for i in r]}

    def op_traj(self, op):
        x = self.state(op["x0"])
        kw = {n: v for n, v in zip("lk", op.get("lk", ())) if v >= 0}
        r = self.mod.traj(self.q(x, op["e"]), verbose=self.verb, **kw)
        return {"x0": self.rec(x), "ret": fv(r)}

    def op_kmap(self, op):
        x = self.state(op["x0"])
        kw = {n: v for n, v in zip("lk", op.get("lk", ())) if v >= 0}
        ls, ks = self.mod.k_map(self.q(x, op["e"]), verbose=self.verb, **kw)
        return {"x0": self.rec(x), "ls": fv(ls), "ks": fv(ks)}

    # ------------------------------------------------------------ estimation
    def op_data(self, op):
        if "sim" in op:
            # observables along a simulated path: calibration, small shocks, two large ones that make the bound bind
            mod = self.mod
            rs = np.random.RandomState(op["sim"])
            x, Z = np.zeros(len(mod.vv)), []
            for t in range(op["T"]):
                e = rs.randn(3) * np.array([0.1, 0.15, 0.1]) + np.array([0, 0.55 if t in (2, 3) else 0, 0])
                x = mod.t_func(x, self.shock(e), return_flag=False)
                Z.append(np.asarray(mod.obs(x[None]))[0])
            Z = np.array(Z)
            op["Z"] = fm(Z)
        else:
            Z = floats(op["Z"])
        idx = pd.period_range("1999Q1", periods=len(Z), freq="Q").to_timestamp()
        df = pd.DataFrame(Z, columns=["GDP", "Infl", "FFR"], index=idx)
        self.mod.load_data(df)
        return {"Z": op["Z"]}

    def op_prep(self, op):
        mod = self.mod
        kw = self.lk(op)
        if not op["linear"]:
            kw["N"] = op.get("N", 40)
            kw["dry_run"] = True
            if "rf" in op:
                kw["reduced_form"] = op["rf"]
        R = floats(op["R"])
        mod.prep_estim(linear=bool(op["linear"]), seed=op.get("seed", 0), ncores=0, verbose=self.verb, **kw, **({"debug": True} if op.get("debug") else {}))
        mod.filter.R = R
        self.ens = None
        if not op["linear"] and kw["N"] * len(mod.data) <= 80:
            self.ens = {"N": kw["N"], "rf": op.get("rf", True)}
        return {} if self.ens is None else {"U": draws(kw["N"] * len(mod.data), 3, self.seed_of(), len(mod.data))}

    def seed_of(self):
        return self.mod.filter.seed or 0

    def ensemble(self):
        """state variables of the ensemble filter at the current parameters, and the draws for their initial values"""
        if not getattr(self, "ens", None):
            return {}
        names = [str(v) for v in (self.mod.svv if self.ens["rf"] else self.mod.vv)]
        return {"S": [n[:-4] if n.lower().endswith("_lag") else n for n in names],
                "u0": draws(self.ens["N"], len(names), self.seed_of(), 1)[0]}

    def op_lprob(self, op):
        mod = self.mod
        v = vec(op["vec"])
        before = v.copy()
        np.random.seed(op.get("rs", 5))
        np.random.rand(op.get("rs", 5))
        s0 = np.random.get_state()
        kw = {"temp": float(op["temp"])} if "temp" in op else {}
        r = mod.lprob(v, **kw)
        s1 = np.random.get_state()
        return {"ret": fs(r), **self.ensemble(), "rng": bool(s0[0] == s1[0] and np.array_equal(s0[1], s1[1]) and s0[2:] == s1[2:]),
                "same": bool(np.array_equal(before, v))}

    def op_lprior(self, op):
        return {"ret": fs(self.mod.lprior(vec(op["vec"])))}

    def op_filter(self, op):
        mod = self.mod
        if mod.filter.name != "KalmanFilter":
            l1 = mod.get_ll()
            X = np.array(mod.run_filter(smoother=False))
            Xs = np.array(mod.run_filter())
            return {**self.ensemble(), "R": fm(mod.filter.R), "lls": [fs(l1), fs(mod.get_ll())], "xs": [fm(x) for x in np.swapaxes(X, 0, 1)], "last": fm(Xs[:, -1])}
        l1 = mod.get_ll()
        X, covs = mod.run_filter()
        l2 = mod.get_ll()
        return {"R": fm(mod.filter.R), "lls": [fs(l1), fs(l2)], "X": [self.rec(x) for x in np.asarray(X)]}

    def op_extract(self, op):
        mod = self.mod
        lin = op["linear"]
        before = mod.data.copy()
        R = fm(mod.filter.R)
        ps = np.array([vec(p) for p in op["pars"]]) if "pars" in op else None
        if ps is not None and op.get("one"):
            ps = ps[0]
        kw = self.lk(op) if lin else {"l_max": op.get("xl", 3), "k_max": op.get("xk", 8)}
        seed = op.get("seed", 0)
        skw = {} if lin else dict(kw)
        if "ns" in op:
            kw["nsamples"] = op["ns"]
        a = mod.extract(ps, verbose=self.verb, seed=seed, **kw)
        np.random.seed(99)
        b = mod.extract(ps, verbose=self.verb, seed=seed, **kw)
        repro = all(np.array_equal(np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)) for k in ("pars", "init", "resid"))
        dsame = mod.data.equals(before) and list(mod.data.columns) == list(before.columns)
        cols = list(a["resid"][0].columns) if hasattr(a["resid"][0], "columns") else []
        X, _, flags = mod.simulate(a, linear=lin, **skw)
        Z = mod.obs(X, pars=a["pars"])
        self.res = a
        res = []
        order = [list(mod.shocks).index(s) for s in SHOCKS]
        for i in range(len(X)):
            e = np.asarray(a["resid"][i], dtype=float)
            res.append({"par": fv(a["pars"][i]), "x0": self.rec(a["init"][i]), "eps": fm(e[:, order]), "X": [self.rec(x) for x in X[i]],
                        "Z": fm(Z[i]), "flag": int(flags[i])})
        return {"R": R, "res": res, "cols": cols, "repro": bool(repro), "dsame": bool(dsame)}

    def op_nhd(self, op):
        mod = self.mod
        pars, eps, inits, ms = self.members(op)
        hd, means = mod.nhd({"pars": pars, "resid": eps, "init": inits}, linear=bool(op.get("linear")), **self.lk(op))
        vv = [str(v) for v in mod.vv]
        ok = all(h.index.equals(mod.data.index) and [str(c) for c in h.columns] == vv for h in list(hd) + [means])
        order = [list(mod.shocks).index(s) for s in SHOCKS]
        hd = [hd[j] for j in order]
        self.hd = hd
        return {"members": ms, "hd": [[self.rec(x) for x in h.values] for h in hd], "means": [self.rec(x) for x in means.values], "index": bool(ok)}

    def op_sort(self, op):
        from pydsge.stats import sort_nhd
        if op.get("table"):
            hd = [pd.DataFrame(floats(t)) for t in op["table"]]
        else:
            hd = [h[NAMES] for h in self.hd]
        before = [h.copy() for h in hd]
        lo, hi = sort_nhd(hd)
        if not all(b.equals(h) for b, h in zip(before, hd)):
            raise RuntimeError("argument changed")
        return {"hd": [fv(h.values) for h in hd], "lo": [[fv(a[0]), fv(a[1])] for a in lo], "hi": [[fv(a[0]), fv(a[1])] for a in hi]}

    def op_gfevd(self, op):
        mod = self.mod
        pars, eps, inits, ms = self.members(op)
        src = {"pars": pars, "resid": eps, "init": inits}
        out = {"members": ms}
        if op.get("means"):
            S = np.array([[self.state((i + t) % 4) for t in range(eps.shape[1] + 1)] for i in range(len(pars))])
            src["means"] = S
            out["states"] = [[self.rec(x) for x in s[:-1]] for s in S]
        vd = mod.gfevd(src, horizon=op["horizon"], linear=bool(op.get("linear")), verbose=self.verb, **self.lk(op))
        out["rows"] = [str(r) for r in vd.index]
        order = [out["rows"].index(s) for s in SHOCKS] if set(SHOCKS) == set(out["rows"]) else []
        v = vd[[str(c) for c in mod.vv]].values
        out["vd"] = [self.rec(v[i]) for i in order]
        return out


def run(sc, tmp):
    s = Sess(sc, tmp)
    ev = []
    for op in sc["ops"]:
        e = dict(op)
        if op["op"] == "ix":
            e["vv"] = [str(v) for v in s.mod.vv]
        try:
            e.update(getattr(s, "op_" + op["op"])(op))
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        if op.get("d"):
            e["dig"] = s.digest(op["d"] == 2)
        ev.append(e)
        if not e["ok"] and op["op"] in ("read", "data", "prep"):
            break
    return {"ev": ev}
