"""Work with model files, several model objects and stored objects: operations of spec/Library.tla on the real code.

Every history runs in a process of its own (forked before any model was read)."""
import json
import multiprocessing
import os
import subprocess
import sys
import numpy as np
import pandas as pd
from common import fs, fv, fm, rec, exc

here = os.path.dirname(os.path.abspath(__file__))
NAMES = ["y", "Pi", "dy", "r", "u", "z", "vr"]
SHOCKS = ["e_z", "e_u", "e_r"]
DIG = [[0.2, 0.5, 0.1], [-0.1, 1.1, 0.0], [0.3, -0.4, 0.2]]


def text(v):
    with open(os.path.join(here, "pm.yaml")) as f:
        s = f.read()

    def sub(a, b):
        nonlocal s
        assert s.count(a) == 1, a
        s = s.replace(a, b)
    if v == "B":
        sub("phi_pi: 1.7\n", "phi_pi: 2.0\n")
    elif v == "C":
        sub("kap: (1-th)*(1-bet*th)/th", "kap: 2*(1-th)*(1-bet*th)/th")
    elif v in "DE":
        sub("kap: (1-th)*(1-bet*th)/th", "kap: slope(bet, th)")
        if v == "E":
            sub("sg: 0.8\n", "sg: 1.1\n")
    elif v == "F":
        sub("name: 'pm'", "name: 'other'")
        sub("normal, 1.7, 0.3", "normal, 1.9, 0.3")
    elif v == "G":
        sub("name: 'pm'", "name: 'p m'")
    elif v == "P":
        sub("uniform, 0.4, 0.9", "uniform, 0.4, 0.8")
    return s


def funcs(f):
    return "def slope(bet, th):\n    return %s*(1-th)*(1-bet*th)/th\n" % {"f1": "1.0", "f2": "1.5"}[f]


RD = {"r1": {"a": np.arange(6.).reshape(2, 3), "b": np.array([1, 2, 3])},
      "r2": {"a": np.array(["x", "yy"]), "c": np.linspace(0, 1, 7)},
      "r3": {"only": np.array([[0.5]]), "flag": np.array(True), "b": np.array([7.5, -1.0])}}


def rdname(d):
    """which of the dictionaries is this?"""
    for n, r in RD.items():
        if set(r) == set(d) and all(np.asarray(d[k]).dtype == r[k].dtype and np.array_equal(d[k], r[k]) for k in r):
            return n
    return "other: %s" % sorted(d)


class Lib:
    def __init__(self, tmp):
        self.tmp = tmp
        self.hs = []

    def p(self, f):
        return os.path.join(self.tmp, f)

    def shock(self, mod, e):
        v = np.zeros(len(SHOCKS))
        for s, x in zip(SHOCKS, e):
            v[list(mod.shocks).index(s)] = float(x)
        return v

    def digest(self, mod):
        try:
            d = {"ok": True, "name": str(mod.name), "dir": os.path.relpath(mod.path, self.tmp), "par": fv(mod.get_par())}
            d["obsn"] = [str(o) for o in mod.observables]
            d["estn"] = [str(o) for o in mod.prior_names]
            d["kap"] = fs(mod.get_par("kap"))
            d["calib"] = fv(mod.get_par("calib"))
            d["pm"] = fv(mod.get_par("prior_mean"))
            try:
                d["mode"] = fv(mod.get_par("mode", full=False))
            except Exception:
                d["mode"] = []
            try:
                d["tune"] = str(int(mod.get_tune))
            except (AttributeError, KeyError):
                d["tune"] = "none"
            d["data"] = fm(mod.data.values) if hasattr(mod, "data") and mod.data is not None else []
            d["idx"] = [str(i) for i in mod.data.index] if d["data"] else []
            x = np.zeros(len(mod.vv))
            for n, e in enumerate(DIG):
                x, (l, k), flag = mod.t_func(x, self.shock(mod, e), return_k=True, linear=n == 2)
                d["s%d" % (n + 1)] = {"e": fv(e), "x": rec(mod, x, NAMES), "l": int(l), "k": int(k), "flag": int(flag)}
                if n == 0:
                    d["obs"] = fv(np.asarray(mod.obs(x[None]))[0])
            d["cov"] = fm(mod.get_cov())
            return d
        except Exception as e:
            if type(e).__name__ == "Timeout":
                raise
            return exc(e)

    def calm(self, mod):
        mod.set_par("calib", l_max=2, k_max=5)

    # ------------------------------------------------------------------
    def op_write(self, op):
        f = self.p(op["file"])
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as o:
            o.write(text(op["v"]))

    def op_funcs(self, op):
        f = self.p(op["file"])[:-5] + "_funcs.py"
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if op["f"] == "none":
            if os.path.exists(f):
                os.unlink(f)
        else:
            with open(f, "w") as o:
                o.write(funcs(op["f"]))

    def op_read(self, op):
        from pydsge import DSGE
        self.hs.append(DSGE.read(self.p(op["file"]), **({"nocache": True} if op["nocache"] else {})))

    def op_set(self, op):
        kw = {"l_max": op["lmax"], "k_max": op["kmax"]} if "lmax" in op else {}
        self.mod.set_par(op["name"], float(op["value"]), **kw)

    def op_data(self, op):
        Z = np.array([[float(x) for x in r] for r in op["Z"]])
        idx = pd.period_range(op["start"], periods=len(Z), freq="Q").to_timestamp()
        self.mod.load_data(pd.DataFrame(Z, columns=["GDP", "Infl", "FFR"], index=idx))
        return {"Z": fm(Z), "idx": [str(i) for i in idx]}

    def op_prep(self, op):
        mod = self.mod
        kw = {} if op["linear"] else {"N": op["N"]}
        if op["upt"] >= 0:
            kw["use_prior_transform"] = bool(op["upt"])
        mod.prep_estim(linear=bool(op["linear"]), seed=op["seed"], ncores=0, verbose=False, **kw)
        mod.filter.R = np.array([[float(x) for x in r] for r in op["R"]])
        self.calm(mod)

    def op_setr(self, op):
        self.mod.filter.R = np.array([[float(x) for x in r] for r in op["R"]])

    def op_loadest(self, op):
        self.mod.load_estim(ncores=0, verbose=False)
        self.calm(self.mod)

    def op_lprob(self, op):
        r = self.mod.lprob(np.array([float(x) for x in op["vec"]]))
        self.calm(self.mod)
        return {"ret": fs(r)}

    def op_mcmc(self, op):
        mod = self.mod
        v = np.array(mod.get_par("init", full=False))
        p0 = v * (1 + .02 * np.random.RandomState(op["seed"]).randn(14, len(v)))
        mod.mcmc(p0, nsteps=2, verbose=False, seed=None if op["own"] else op["seed"], tune=op["tune"])
        self.calm(mod)
        return {"mode": fv(mod.get_par("mode", full=False))}

    def op_rename(self, op):
        self.mod.name = op["name"]

    def op_mutate(self, op):
        self.mod.prior["phi_pi"][4] = 2.05

    def op_save(self, op):
        kw = {}
        if "file" in op:
            kw["filename"] = self.p(op["file"])
            if not op["ext"]:
                kw["filename"] = kw["filename"][:-4]
        self.mod.save(verbose=False, **kw)
        there = []
        for d in ("a", "b"):
            if os.path.isdir(self.p(d)):
                there += [d + "/" + f for f in os.listdir(self.p(d))]
        return {"there": there}

    def loaded(self, op):
        from pydsge import DSGE
        return DSGE.load(self.p(op["file"]), force_parse=bool(op["force"]))

    def elsewhere(self, op):
        """what another process sees"""
        try:
            mod = self.loaded(op)
            res = {"ok": True, "dig": self.digest(mod)}
            if res["dig"]["ok"] and "linear" in mod.fdict and bool(mod.fdict["linear"]) and res["dig"]["data"]:
                mod.load_estim(ncores=0, verbose=False)
                res["post"] = fs(mod.lprob(np.array([float(x) for x in op["vec"]])))
            return res
        except Exception as e:
            return exc(e)

    def op_load(self, op):
        if op["how"] == "obj":
            from pydsge import DSGE
            self.hs.append(DSGE.load(self.p(op["file"])))
        elif op["how"] == "text":
            from pydsge import DSGE
            self.hs.append(DSGE.load(self.p(op["file"]), force_parse=True))
        elif op["how"] == "fork":
            self.pipe.send(op)
            return self.pipe.recv()
        else:
            r = subprocess.run([sys.executable, os.path.join(here, "sc_lib.py"), self.tmp], input=json.dumps(op), text=True,
                               capture_output=True, timeout=100)
            if r.returncode:
                raise RuntimeError("other process: " + r.stderr[-300:])
            return json.loads(r.stdout.splitlines()[-1])

    def op_srd(self, op):
        self.mod.save_rdict(dict(RD[op["val"]]), verbose=False, **self.rdargs(op))

    def op_lrd(self, op):
        return {"ret": rdname(self.mod.load_rdict(**self.rdargs(op)))}

    def rdargs(self, op):
        kw = {}
        if op["path"] or op["abs"]:
            base = op["path"] or "plain"
            kw["path"] = self.p(os.path.join(op["adir"], base)) if op["abs"] else base
        if op["suffix"]:
            kw["suffix"] = op["suffix"]
        return kw


def body(sc, tmp):
    lib = Lib(tmp)
    ctx = multiprocessing.get_context("fork")
    lib.pipe, other = ctx.Pipe()

    def clean():
        while True:
            try:
                op = other.recv()
            except EOFError:
                return
            if op is None:
                return
            other.send(lib.elsewhere(op))
    pr = ctx.Process(target=clean)
    pr.start()
    ev = []
    try:
        for op in sc["ops"]:
            e = dict(op)
            try:
                if "h" in op:
                    lib.mod = lib.hs[op["h"] - 1]
                e.update(getattr(lib, "op_" + op["op"])(op) or {})
                e.setdefault("ok", True)
            except Exception as err:
                if type(err).__name__ == "Timeout":
                    raise
                e.update(exc(err))
            if op["op"] in ("srd", "lrd"):
                # file names of the specification have no extension
                e["path"] = op["path"][:-4] if op["path"].endswith(".npz") else op["path"] or ("plain" if op["abs"] else "")
            e["digs"] = [lib.digest(m) for m in lib.hs]
            ev.append(e)
            if not e["ok"] and op["op"] == "load":
                break
    finally:
        lib.pipe.send(None)
        pr.join(5)
        if pr.is_alive():
            pr.kill()
    return {"ev": ev}


def run(sc, tmp):
    ctx = multiprocessing.get_context("fork")
    for d in ("a", "b"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    a, b = ctx.Pipe()

    def go():
        try:
            res = body(sc, tmp)
        except BaseException as e:
            res = {"crash": "%s: %s" % (type(e).__name__, e)}
        b.send(res)
    pr = ctx.Process(target=go)
    pr.start()
    try:
        if not a.poll(110):
            return {"crash": "timeout", "ev": []}
        return a.recv()
    finally:
        pr.join(5)
        if pr.is_alive():
            pr.kill()


if __name__ == "__main__":
    sys.path.insert(0, here)
    op = json.loads(sys.stdin.read())
    print(json.dumps(Lib(sys.argv[1]).elsewhere(op)))
