"""The same session with different numbers of worker processes."""
import functools
import os
import time
import numpy as np
from common import fs, fv, fm, exc
from sc_sess import Sess, vec, floats

def flat(o, num, txt, path=""):
    if isinstance(o, dict):
        for k in sorted(o):
            flat(o[k], num, txt, path + "/" + k)
    elif isinstance(o, (list, tuple)):
        txt.append("%s:%d" % (path, len(o)))
        for x in o:
            flat(x, num, txt, path + "/")
    elif isinstance(o, str):
        try:
            float(o)
            num.append(o)
        except ValueError:
            txt.append(o)
    else:
        txt.append(str(o))


class Pooled(Sess):
    def __init__(self, sc, tmp, w):
        super().__init__(sc, tmp)
        self.w = w

    def op_prep(self, op):
        mod = self.mod
        kw = self.lk(op)
        if not op["linear"]:
            kw["N"] = op.get("N", 40)
            kw["dry_run"] = True
        mod.prep_estim(linear=bool(op["linear"]), seed=op.get("seed", 0), ncores=self.w, verbose=False, **kw)
        mod.filter.R = floats(op["R"])
        return {}

    def op_pool(self, op):
        if self.w:
            self.mod.create_pool(max(1, self.w + op["n"]))
        return {}

    def op_prior(self, op):
        S = self.mod.prior_sampler(op["n"], seed=op["seed"], check_likelihood=op["chk"], max_attempts=100, verbose=False)
        return {"ret": fm(S)}

    def op_mcmc(self, op):
        rs = np.random.RandomState(op["seed"])
        base = np.array([1.7, 0.7, 0.5, 0.65, 0.9, 0.4])
        self.mod.mcmc(base * (1 + 0.02 * rs.randn(13, 6)), nsteps=op["n"], tune=2, seed=op["seed"], backend=False, verbose=False)
        return {"chain": [fm(s) for s in self.mod.get_chain()], "lp": fm(self.mod.get_log_prob()), "mode": fv(self.mod.get_par("mode"))}


def run(sc, tmp):
    from pydsge import DSGE
    delays = {}
    orig = DSGE.set_par

    @functools.wraps(orig)
    def set_par(self, dummy=None, *a, **k):
        # which worker is slow is part of the scenario
        if delays and os.getpid() != main and not isinstance(dummy, str) and dummy is not None:
            time.sleep(delays.get(np.asarray(dummy, dtype=float).tobytes(), 0))
        return orig(self, dummy, *a, **k)

    main = os.getpid()
    try:
        for c in DSGE.__mro__:
            if "set_par" in c.__dict__:
                owner = c
                break
        owner.set_par = set_par
        return {"ev": play(sc, tmp, delays)}
    finally:
        owner.set_par = orig


def play(sc, tmp, delays):
    ss, ev = [], []
    for w in [0] + sc["workers"]:
        d = os.path.join(tmp, "w%d_%d" % (w, len(ss)))
        os.makedirs(d)
        ss.append(Pooled(sc, d, w))
    for n, op in enumerate(sc["ops"]):
        ps = op.get("pars") or [m["par"] for m in op.get("members", [])]
        delays.clear()
        for i, p in enumerate(ps):
            r = {"down": len(ps) - i, "up": i, "zig": (i * 5) % 7}.get(op.get("dl"), 0)
            delays[vec(p).tobytes()] = 0.02 * r
        runs = []
        stop = False
        for s in ss:
            np.random.seed(1000 + n)
            e = {"w": s.w, "num": [], "txt": [], "dnum": [], "dtxt": []}
            try:
                flat(getattr(s, "op_" + op["op"])(dict(op)), e["num"], e["txt"])
                e["ok"] = True
            except Exception as err:
                if type(err).__name__ == "Timeout":
                    raise
                e.update(exc(err), num=[], txt=[])
                stop = stop or op["op"] in ("read", "data", "prep", "mcmc")
            if s.mod is not None:
                flat(s.digest(False), e["dnum"], e["dtxt"])
            runs.append(e)
        ev.append({"op": op, "runs": runs})
        if stop:
            break
    for s in ss:
        p = getattr(s.mod, "pool", None)
        if p:
            p.terminate()
            p.join()
            p.clear()
    return ev
