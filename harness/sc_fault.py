"""Malformed and corrected model files."""
import os
import numpy as np
from common import exc
from sc_dict import digest
import render


def run(sc, tmp):
    from pydsge import DSGE
    objs, ev = [], []
    for op in sc["ops"]:
        F = op["F"]
        path = render.write(F, tmp, extra={"params": {"g1": "0.5", "g2": "1.5"}})
        if int(F.get("sty", 0)) != 5 and os.path.exists(path[:-5] + "_funcs.py"):
            os.remove(path[:-5] + "_funcs.py")
        e = {"op": "write", "F": F, "stage": "read"}
        try:
            mod = DSGE.read(path)
            e["stage"] = "solve"
            mod.set_par("calib")
            e["stage"] = "step"
            x, flag = mod.t_func(np.zeros(len(mod.vv)), np.full(len(mod.shocks), 0.1))
            mod.irfs((str(mod.shocks[0]), 1.0, 0), T=3, verbose=False)
            if F.get("obs"):
                mod.obs(x[None])
            e["stage"] = "none"
        except Exception as err:
            if type(err).__name__ == "Timeout":
                raise
            e.update(exc(err))
        if e["stage"] == "none":
            objs.append((mod, F))
        e["digs"] = [digest(a, b) for a, b in objs]
        ev.append(e)
    return {"ev": ev}
