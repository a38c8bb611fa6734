"""Sampling runs, their files and their summaries."""
import os
import numpy as np
import pandas as pd
from common import fs, fv, fm, exc
from sc_samp import write, data

BASE = {"phi_pi": 1.7, "rho_u": 0.7, "s_u": 0.5, "th": 0.65, "sg": 0.9, "rho": 0.55}


class Stop(BaseException):
    pass


def con(prior, x):
    """sampler coordinates -> model parameters"""
    from scipy.special import expit
    x = np.array(x, dtype=float)
    for j, q in enumerate(prior):
        if q["dist"] in ("gamma", "inv_gamma", "inv_gamma_dynare"):
            x[..., j] = np.exp(x[..., j])
        elif q["dist"] == "beta":
            x[..., j] = expit(x[..., j])
    return x


def unc(prior, x):
    x = np.array(x, dtype=float)
    for j, q in enumerate(prior):
        if q["dist"] in ("gamma", "inv_gamma", "inv_gamma_dynare"):
            x[..., j] = np.log(x[..., j])
        elif q["dist"] == "beta":
            x[..., j] = np.log(x[..., j] / (1 - x[..., j]))
    return x


def steps(c):
    return [fm(s) for s in c]


def moves(op, kill=False):
    import emcee
    if op["move"] == "dime":
        return None
    if op["move"] == "stretch":
        return emcee.moves.StretchMove()
    left = [op["stop"]]

    class Tiny(emcee.moves.GaussianMove):
        def propose(self, *a, **k):
            if left[0] == 0:
                if kill:
                    os._exit(0)
                raise Stop()
            left[0] -= 1
            return super().propose(*a, **k)
    return Tiny(1e-12)


def run(sc, tmp):
    import emcee
    from pydsge import DSGE
    ev, mod, prior, trans, seed = [], None, None, False, 0
    R = np.diag([0.05, 0.04, 0.06])
    f, lazy = None, False

    def prep():
        mod.load_data(data())
        mod.prep_estim(linear=True, seed=seed, ncores=0, verbose=False, use_prior_transform=trans)
        mod.filter.R = R.copy()

    def files():
        res = {}
        for n in sorted(os.listdir(tmp)):
            if n.endswith(".h5"):
                b = emcee.backends.HDFBackend(os.path.join(tmp, n), read_only=True)
                try:
                    c, l = b.get_chain(), b.get_log_prob()
                except AttributeError:      # nothing stored
                    c, l = [], []
                c = con(prior, c) if trans and len(c) else c
                res[n] = {"chain": steps(c), "lp": fm(l)}
        return res

    def where(n):
        return n if n in ("none", "default") else os.path.join(tmp, n)

    def sample(op, kill):
        kw = dict(nsteps=op["n"], moves=moves(op, kill), verbose=False)
        if op["tune"] >= 0:
            kw["tune"] = op["tune"]
        if op["temp"] != "1.0":
            kw["temp"] = float(op["temp"])
        if op["seed"] >= 0:
            kw["seed"] = op["seed"]
        if op["mode"] != "fresh":
            kw[op["mode"]] = True
        if op["mode"] != "resume":
            if op["p0"] == "given":
                kw["p0"] = unc(prior, start(op)) if trans else start(op)
            else:
                kw["nwalks"] = op["nw"]
        if op["backend"] == "none":
            kw["backend"] = False
        elif op["backend"] != "default":
            kw["backend"] = where(op["backend"])
        if op["suffix"]:
            kw["suffix"] = op["suffix"]
        mod.mcmc(**kw)

    def start(op):
        rs = np.random.RandomState(op["rs"])
        return np.array([BASE[q["name"]] for q in prior]) * (1 + 0.04 * rs.randn(op["nw"], len(prior)))

    def query(op, e):
        q = op["q"]
        if q == "chain":
            kw = {"flat": True} if op["flat"] else {}
            if "file" in op:
                kw["backend_file"] = where(op["file"])
            c, l = mod.get_chain(**kw), mod.get_log_prob(**kw)
            e["ret"] = fm(c) if op["flat"] else steps(c)
            e["lp"] = fv(l) if op["flat"] else fm(l)
        elif q == "acc":
            e["ret"] = fv(mod.get_chain(get_acceptance_fraction=True))
        elif q == "tune":
            e["ret"] = int(mod.get_tune)
        elif q == "info":
            s = {l.split(":")[0]: l for l in mod.info(verbose=False).splitlines()}
            last = [l for l in s.values() if l.startswith("Last")][0].split()
            e["ret"] = [int(s["Parameters"].split()[1]), int(s["Chains"].split()[1]), int(last[1]), int(last[3])]
        elif q == "summary":
            r = mod.mcmc_summary(out=lambda x: None)
            e["rows"] = [str(x) for x in r.index]
            e["mean"], e["sd"], e["mode"] = fv(r["mean"]), fv(r["sd"]), fv(r["mode"])
        elif q == "csv":
            p = os.path.join(tmp, "out.csv")
            mod.posterior2csv(p)
            d = pd.read_csv(p, index_col=0, float_precision="round_trip")
            e["rows"] = [str(x) for x in d.index]
            e["ret"] = fm(d.to_numpy().T)
        elif q == "mdd":
            e["ret"] = fs(mod.mdd())
        elif q == "sample":
            e["ret"] = fm(mod.get_sample(op["size"]))
        elif q == "par" and op["which"] == "posterior":
            e["ret"] = fm(mod.get_par("posterior", full=False, nsamples=op["n"], seed=op["seed"]))
            e["again"] = fm(mod.get_par("posterior", full=False, nsamples=op["n"], seed=op["seed"]))
            e["full"] = fm(mod.get_par("posterior", nsamples=op["n"], seed=op["seed"]))
        elif q == "par":
            e["ret"] = fv(mod.get_par(op["which"], full=False))
            e["full"] = fv(mod.get_par(op["which"]))

    for op in sc["ops"]:
        e = dict(op)
        np.random.seed(77 + len(ev))
        try:
            if op["op"] == "read":
                prior = op["prior"]
                f = write(op, tmp)
                mod = DSGE.read(f)
            elif op["op"] == "prep":
                trans, seed = op["trans"], op["seed"]
                prep()
                e["Z"], e["R"] = fm(mod.data.to_numpy()), fm(R)
            elif op["op"] == "set":
                mod.set_par(op["name"], float(op["value"]))
            elif op["op"] == "reopen":
                mod, lazy = DSGE.read(f), False
                prep()
            elif op["op"] == "reload":
                p = os.path.join(tmp, "meta.npz")
                mod.save(p, verbose=False)
                mod = DSGE.load(p)
                lazy = op["lazy"]
                if not lazy:
                    mod.load_estim(ncores=0, verbose=False)
            elif op["op"] == "run":
                if lazy:
                    mod.load_estim(ncores=0, verbose=False)
                    lazy = False
                e["start"] = fm(start(op)) if op["mode"] != "resume" and op["p0"] == "given" else [fv(mod.get_par("prior_mean", full=False) if op["temp"] != "1.0" else mod.get_par("best", full=False))]
                if op["stop"] >= 0 and op["how"] == "kill":
                    pid = os.fork()
                    if not pid:
                        try:
                            sample(op, True)
                        finally:
                            os._exit(1)
                    assert os.waitpid(pid, 0)[1] == 0, "run in the other process failed"
                elif op["stop"] >= 0:
                    try:
                        sample(op, False)
                        raise AssertionError("run was not interrupted")
                    except Stop:
                        pass
                else:
                    sample(op, False)
                    if op["backend"] == "none":
                        c = mod.get_chain()
                        e["mem"] = {"chain": steps(c), "lp": fm(mod.get_log_prob())}
                    if op["temp"] == "1.0":
                        e["mode_x"] = fv(mod.get_par("mode", full=False))
            else:
                query(op, e)
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        if op["op"] not in ("read", "prep"):
            e["files"] = files()
        ev.append(e)
        if op["op"] in ("read", "prep", "run", "reopen", "reload") and not e["ok"]:
            break
    return {"ev": ev}
