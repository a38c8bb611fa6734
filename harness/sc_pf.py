"""Derived parameters: systems of definitions of spec/ParaFunc.tla in real model files."""
import os
import numpy as np
from common import fs, fv, fm, rec, exc

here = os.path.dirname(os.path.abspath(__file__))
NAMES = ["y", "Pi", "dy", "r", "u", "z", "vr"]
SHOCKS = ["e_z", "e_u", "e_r"]
DIG = [[0.2, 0.5, 0.1], [-0.1, 1.1, 0.0], [0.3, -0.4, 0.2]]
TXT = {"add": "{a} + {b}", "sub": "{a} - {b}", "mul": "0.7*{a}*{b}/(1 + {a}**2)", "sqrt": "sqrt(1 + {a}^2) - {b}", "exp": "exp(-{a}**2) + 0.1*{b}",
       "log": "log(2 + {a}^2)*{b}/(1 + {b}^2)", "norm": "normcdf({a}/(1+{a}**2)) - normpdf({b}/(1+{b}**2))",
       "ppf": "normppf(0.3 + 0.4*{a}**2/(1 + {a}**2)) + 0.1*{b}", "inv": "norminv(0.7 - 0.4*{b}**2/(1 + {b}**2)) - 0.1*{a}", "neg": "-{a}/2", "lin": "lin({a}, {b})", "sat": "sat({a})", "const": "0.25",
       "kap": "(1 + 0.3*{a}/(1+{a}**2))*((1-{b})*0.3/{b} + 0.05)", "xbar": "-0.8*(1 + 0.5*{a}/(1+{a}**2)) - 0.1*({b}/(1+{b}**2))**2",
       "sr2": "0.4*(1 + 0.5*{a}/(1+{a}**2))"}


def write(op, tmp):
    with open(os.path.join(here, "pm.yaml")) as f:
        s = f.read()
    i, j = s.index("  parafunc:\n"), s.index("  covariances:\n")
    pf = "".join("    %s: %s\n" % (n, TXT[d["t"]].format(a=d["a"], b=d["b"])) for n, d in op["defs"])
    s = s[:i] + "  parafunc:\n" + pf + s[j:]
    s = s.replace("GDP: dy + ybar", "GDP: dy + ybar + oc")
    f = os.path.join(tmp, "m.yaml")
    with open(f, "w") as o:
        o.write(s)
    if op["fv"] != "none":
        with open(f[:-5] + "_funcs.py", "w") as o:
            o.write("def lin(x, y):\n    return %s*x + 0.5*y\n\n\ndef sat(x):\n    return x/(1 + abs(x))\n" % ("0.9" if op["fv"] == "g2" else "0.3"))
    return f


def digest(mod, names):
    def shock(e):
        v = np.zeros(3)
        for s, x in zip(SHOCKS, e):
            v[list(mod.shocks).index(s)] = x
        return v
    try:
        d = {"ok": True, "par": fv(mod.get_par()), "der": {n: fs(mod.get_par(n)) for n in names}}
        dd = mod.get_par(asdict=True)[1]
        d["dict"] = {n: fs(dd[n]) for n in names}
        x = np.zeros(len(mod.vv))
        for n, e in enumerate(DIG):
            x, (l, k), flag = mod.t_func(x, shock(e), return_k=True, linear=n == 2)
            d["s%d" % (n + 1)] = {"e": fv(e), "x": rec(mod, x, NAMES), "l": int(l), "k": int(k), "flag": int(flag)}
            if n == 0:
                d["obs"] = fv(np.asarray(mod.obs(x[None]))[0])
        d["cov"] = fm(mod.get_cov())
        return d
    except Exception as e:
        if type(e).__name__ == "Timeout":
            raise
        return exc(e)


def run(sc, tmp):
    from pydsge import DSGE
    ev, mod = [], None
    names = [n for n, _ in sc["ops"][0]["defs"]]
    for op in sc["ops"]:
        e = dict(op)
        try:
            if op["op"] == "read":
                mod = DSGE.read(write(op, tmp))
                mod.set_par("calib")
            elif op["op"] == "set":
                mod.set_par(np.array([float(x) for x in op["vec"]])) if "vec" in op else mod.set_par(op["name"], float(op["value"]))
            else:
                v = np.array([float(x) for x in op["vec"]])
                e["der"] = {n: fs(mod.get_par(n, npar=v)) for n in names}
            e["ok"] = True
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        if mod is None:
            ev.append(e)
            break
        e["dig"] = digest(mod, names)
        ev.append(e)
    return {"ev": ev}
