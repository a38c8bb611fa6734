"""Writes a model record of the specification (see spec/LinearModel.tla) as a pydsge model file."""
import math
import os


def num(x):
    return repr(float(x))


def isname(c):
    """a coefficient that is a name and not a number"""
    return isinstance(c, str) and c[:1].isalpha() and c not in ("inf", "nan")


class Coefs:
    """how coefficients are written, by style"""

    def __init__(self, sty):
        self.sty = sty
        self.params = {}      # name -> value
        self.parafunc = {}    # name -> expression
        self.funcs = ""

    def write(self, c):
        if isname(c):
            return c
        c = float(c)
        n = len(self.params) + 1
        if self.sty in (0, 2, 6):
            return num(c) if c >= 0 else "(%s)" % num(c)
        if self.sty == 1:
            self.params["c%d" % n] = num(c)
            return "c%d" % n
        if self.sty == 3:
            self.params["c%d" % n] = num(math.sqrt(abs(c)))
            return ("" if c >= 0 else "-") + "c%d^2" % n
        if self.sty == 4:
            self.params["c%d" % n] = num(c / 2)
            self.parafunc["d%d" % n] = "2*c%d" % n
            return "d%d" % n
        self.params["c%d" % n] = num(c - 1)
        self.parafunc["f%d" % n] = "shift(c%d, one)" % n
        return "f%d" % n


def term(co, t, sty):
    c, s, d = t
    d = int(d)
    if d == 0:
        sym = s
    elif sty == 5:
        sym = "%s(%d)" % (s, d)
    else:
        sym = "%s(%+d)" % (s, d)
    if not isname(c):
        c = float(c)
    if c == 1.0 and sty in (0, 2, 4):
        return sym
    w = co.write(c)
    if w.startswith("-"):
        w = "(%s)" % w
    return "%s*%s" % (w, sym) if sty != 2 else "%s*%s" % (sym, w)


def neg(t):
    if isname(t[0]):
        return [t[0], "(-%s)" % t[1] if int(t[2]) == 0 else t[1], t[2]]
    return [-float(t[0]), t[1], t[2]]


def join(ts):
    return " + ".join(ts) if ts else "0"


def equation(co, eq, sty):
    if sty == 2:
        return join([term(co, t, sty) for t in eq])
    if sty == 4:
        return "0 = " + join([term(co, t, sty) for t in eq]) + ";"
    if sty == 5:
        h = (len(eq) + 1) // 2
        a = join([term(co, t, sty) for t in eq[:h]])
        b = join([term(co, neg(t), sty) for t in eq[h:]])
        return a + (" @\n" if len(eq) % 2 else " @ \n") + "        = " + b
    if sty == 6:
        h = (len(eq) + 1) // 2
        a = join([term(co, t, sty) for t in eq[:h]])
        b = join([term(co, t, sty) for t in eq[h:]])
        return "(%s)/4 = -(%s)*0.5^2" % (a, b)
    return term(co, eq[0], sty) + " = " + join([term(co, neg(t), sty) for t in eq[1:]])


def yaml_text(m, name="gen", extra=None):
    """-> (yaml text, functions text or None)"""
    extra = extra or {}
    sty = int(m.get("sty", 0))
    co = Coefs(sty)
    bullet = "~" if sty == 3 else "-"
    y = "declarations:\n  name: '%s'\n" % name
    y += "  variables: [%s]\n" % ", ".join(m["vars"])
    y += "equations:\n  model:\n"
    for eq in m["eqs"]:
        y += "    %s %s\n" % (bullet, equation(co, eq, sty))
    con = m["con"]
    cons = m.get("cons")
    if cons is None:
        cons = [{"lhs": con["var"], "form": "eq", "terms": con["terms"]}]
    if cons:
        y += "  constraint:\n"
    for c in cons:
        rhs = join([term(co, t, sty) for t in c["terms"]])
        txt = {"eq": "%s = %s", "expr": "%s + %s", "twoeq": "%s = %s = 0"}[c["form"]] % (c["lhs"], rhs)
        y += "    %s %s\n" % (bullet, txt)
    if m.get("obs"):
        y += "  observables:\n"
        for o in m["obs"]:
            ex = join([term(co, t, sty) for t in o["terms"]])
            if float(o.get("const", 0)):
                ex += " + " + co.write(o["const"])
            y += "    %s: %s\n" % (o["name"], ex)
    params = dict(co.params)
    parafunc = dict(co.parafunc)
    funcs = None
    if sty == 5:
        params["one"] = "1.0"
        funcs = "def shift(x, by):\n    return x + by\n"
    xb = m.get("xbkind", 0)
    if xb in (0, 1, 4):
        params["x_bar"] = num(m["xbar"])
    elif xb == 2:
        params["elb"] = num(-float(m["xbar"]))
        parafunc["x_bar"] = "-elb"
    for s in m["shocks"]:
        if m.get("sig"):
            params["sig_" + s] = num(m["sig"][s])
    params.update(extra.get("params", {}))
    if not params:
        params["unused"] = "1.0"
    y += "calibration:\n  parameters:\n"
    for k, v in params.items():
        y += "    %s: %s\n" % (k, v)
    if parafunc or extra.get("parafunc"):
        parafunc.update(extra.get("parafunc", {}))
        items = list(parafunc.items())
        if sty == 4:
            items.reverse()
        y += "  parafunc:\n"
        for k, v in items:
            y += "    %s: %s\n" % (k, v)
    y += "  covariances:\n"
    for s in m["shocks"]:
        y += "    %s: %s\n" % (s, "sig_" + s if m.get("sig") else m.get("cov", {}).get(s, "1.0"))
    if extra.get("prior"):
        y += "estimation:\n  prior:\n"
        for k, v in extra["prior"].items():
            y += "    %s: %s\n" % (k, v)
    return y, funcs


def write(m, folder, name="gen", extra=None):
    y, f = yaml_text(m, name, extra)
    path = os.path.join(folder, name + ".yaml")
    with open(path, "w") as h:
        h.write(y)
    if f:
        with open(path[:-5] + "_funcs.py", "w") as h:
            h.write(f)
    return path
