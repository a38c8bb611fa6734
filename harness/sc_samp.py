"""Sampling from declared priors."""
import os
import numpy as np
import pandas as pd
from common import fs, fv, exc

here = os.path.dirname(os.path.abspath(__file__))
INIT = {"phi_pi": "1.8", "rho_u": "None", "s_u": "0.5", "th": "0.65", "sg": "None", "s_z": "0.4", "rho": "0.55"}


def write(op, tmp):
    with open(os.path.join(here, "pm.yaml")) as f:
        s = f.read()
    s = s[:s.index("estimation:\n")] + "estimation:\n  prior:\n"
    for q in op["prior"]:
        t = "%s, %s, %s" % (q["dist"], q["a"], q["b"])
        if q["form"] == 6:
            t = "%s, 0.01, 3.0, %s" % (INIT[q["name"]], t)
        s += "    %s: [%s]\n" % (q["name"], t)
    f = os.path.join(tmp, "m.yaml")
    with open(f, "w") as o:
        o.write(s)
    return f


def data():
    rs = np.random.RandomState(3)
    return pd.DataFrame(np.array([0.4, 0.5, 0.51]) + 0.3 * rs.randn(10, 3), columns=["GDP", "Infl", "FFR"],
                        index=pd.date_range("2001-03-31", periods=10, freq="QE"))


def run(sc, tmp):
    from pydsge import DSGE
    ev, mod, prep, fresh = [], None, False, False
    for op in sc["ops"]:
        e = dict(op)
        try:
            if op["op"] == "read":
                mod = DSGE.read(write(op, tmp))
                fresh = op["fresh"]
                if not fresh:
                    mod.set_par("calib", l_max=2, k_max=1)     # a small horizon, for speed
            elif op["op"] == "set":
                mod.set_par(op["name"], float(op["value"]))
            elif op["op"] == "prep":
                mod.load_data(data())
                mod.prep_estim(linear=True, seed=0, ncores=0, verbose=False, use_prior_transform=op["trans"])
                mod.filter.R = np.diag([0.05, 0.05, 0.05])
                prep = True
            else:
                np.random.seed(99 + len(ev))      # the sample must not depend on it
                if op["via"] == "sampler":
                    S = mod.prior_sampler(op["n"], seed=op["seed"], try_parameter=op["try"], check_likelihood=op["chk"], max_attempts=100, verbose=False)
                else:
                    S = mod.get_par("prior", full=False, nsamples=op["n"], seed=op["seed"], max_attempts=100, verbose=False)
                    full = mod.get_par("prior", nsamples=op["n"], seed=op["seed"], max_attempts=100, verbose=False)
                    e["rest"] = [fv(r) for r in full]
                S = np.array(S)
                e["par"] = fv(mod.get_par())
                e["S"] = [fv(r) for r in S]
                if prep:
                    e["lp"] = [fs(mod.lprior(r)) for r in S[:8]]
                if op["chk"]:
                    e["post"] = [fs(mod.lprob(r, use_prior_transform=False)) for r in S]
                    mod.set_par(np.array([float(x) for x in e["par"]]))
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        ev.append(e)
        if op["op"] == "sample" and fresh:
            mod.set_par("calib", l_max=2, k_max=1)
            fresh = False
        if op["op"] in ("read", "prep") and not e["ok"]:
            break
    return {"ev": ev}
