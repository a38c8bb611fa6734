"""Runs scenarios generated from the specification on the real code and records traces.

usage: drv.py SCENARIOS.json TRACES.json NPROC

A scenario is {"id", "kind", ...}; "kind" selects the module sc_<kind>.py, whose run(scenario, tmp)
returns the list of events.  Only public API of pydsge is used.  Everything is written below a scratch folder.
"""
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
warnings.simplefilter("ignore")


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout("time limit")


def one(sc):
    import numpy as np
    tmp = tempfile.mkdtemp(prefix="sc", dir=os.environ["VERIF_SCRATCH"])
    old = os.getcwd()
    os.chdir(tmp)
    np.random.seed(0)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(sc.get("limit", 120)))
    out = io.StringIO()
    tr = {"id": sc["id"], "kind": sc["kind"]}
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod = importlib.import_module("sc_" + sc["kind"])
            res = mod.run(sc, tmp)
        if isinstance(res, dict):
            tr.update(res)
        else:
            tr["ev"] = res
    except Timeout:
        tr["crash"] = "timeout"
    except BaseException as e:
        tr["crash"] = "%s: %s" % (type(e).__name__, e)
        tr["tb"] = traceback.format_exc()[-2000:]
    finally:
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    return tr


def main():
    src, dst, nproc = sys.argv[1], sys.argv[2], int(sys.argv[3])
    with open(src) as f:
        scs = json.load(f)
    import pydsge  # noqa: imported once, workers are forked
    repo = os.environ["VERIF_REPO"]
    assert os.path.realpath(pydsge.__file__).startswith(os.path.realpath(repo) + os.sep), pydsge.__file__
    for k in sorted({s["kind"] for s in scs}):
        importlib.import_module("sc_" + k)
    if nproc > 1 and len(scs) > 1:
        ctx = multiprocessing.get_context("fork")
        # non-daemonic workers: scenarios may start pools of their own
        import concurrent.futures as cf
        with cf.ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
            res = list(ex.map(one, scs, chunksize=1))
    else:
        res = [one(s) for s in scs]
    with open(dst, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
