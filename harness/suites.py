"""What is explored for each property."""


def pick(rng, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def sim(run, rng, tags):
    one = run.generate("SimGen", "SimOne")
    rnd = run.generate("SimGen", "SimGen", sim=(400 if run.thorough else 60, 60))
    mix = run.generate("SimGen", "SimMix")
    if not run.thorough:
        mix = pick(rng, mix, 8)
    scs = [dict(s, kind="sim", verb=n % 3) for n, s in enumerate(one + rnd + mix)]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.sample(scs[-1])
    run.validate("SimTrace", tr, scs, tags=tags)


def sess(run, rng, tags, fams):
    """sessions with the parametric model; fams: {family: (quick, thorough) number of random sessions}"""
    scs = []
    for fam, (q, t) in fams.items():
        got = run.generate("SessGen", "SessGen", sim=(t if run.thorough else q, 60), env={"FAM": fam})
        scs += [dict(s, kind="sess", fam=fam, verb=(n % 5) % 3) for n, s in enumerate(got)]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.sample(scs[-1])
    run.validate("SessTrace", tr, scs, tags=tags)


def filt(run, rng, tags, fam, q, t):
    """filter runs with generated models"""
    scs = [dict(s, kind="filt") for s in run.generate("FiltGen", "FiltGen", sim=(t if run.thorough else q, 60), env={"FAM": fam})]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("FiltTrace", tr, scs, tags=tags)


SESSRULE = ("scenario = random session with one model object (settings of parameters in all forms, failing settings, reads, "
            "edits of returned and passed objects, simulations, estimation), generated from spec/SessGen.tla; every operation "
            "and the behaviour digest after it is judged against spec/Session.tla; a trace counts as non-trivial when it was "
            "replayed to its end")


def C06(run, rng):
    run.design("SetDesign", needs=["Restore", "Keep", "FilterPart"])
    sess(run, rng, ["C06"], {"state": (40, 400), "par": (16, 200), "stest": (16, 160), "stlk": (10, 60), "stmove": (12, 120)})
    return "model_checking", SESSRULE


def C07(run, rng):
    sess(run, rng, ["C07"], {"par": (110, 1000)})
    return "model_checking", SESSRULE


def C05(run, rng):
    sess(run, rng, ["C05"], {"sim": (60, 600)})
    filt(run, rng, ["C05"], "useC05", 30, 300)
    return "model_checking", SESSRULE


def C10(run, rng):
    sess(run, rng, ["C10"], {"lin": (50, 600)})
    filt(run, rng, ["C10"], "kf", 40, 500)
    return "model_checking", SESSRULE


def C11(run, rng):
    sess(run, rng, ["C11"], {"post": (50, 600), "postnl": (16, 160)})
    return "model_checking", SESSRULE


def C25(run, rng):
    sess(run, rng, ["C25"], {"enkf": (24, 240), "postnl": (10, 100)})
    filt(run, rng, ["C25"], "ens", 40, 400)
    return "model_checking", SESSRULE


def C12(run, rng):
    sess(run, rng, ["C12"], {"ext": (40, 400), "extnl": (8, 80)})
    filt(run, rng, ["C12"], "kf", 30, 300)
    return "model_checking", SESSRULE


def C13(run, rng):
    sess(run, rng, ["C13"], {"nhd": (40, 400)})
    filt(run, rng, ["C13"], "useC13", 24, 240)
    return "model_checking", SESSRULE


def C14(run, rng):
    sess(run, rng, ["C14"], {"gfevd": (40, 400)})
    filt(run, rng, ["C14"], "useC14", 24, 240)
    return "model_checking", SESSRULE


def C19(run, rng):
    sess(run, rng, ["C19"], {"traj": (60, 600)})
    filt(run, rng, ["C19"], "useC19", 30, 300)
    return "model_checking", SESSRULE


def C21(run, rng):
    sess(run, rng, ["C21"], {"obs": (60, 600)})
    filt(run, rng, ["C21"], "useC21", 20, 200)
    return "model_checking", SESSRULE


def lib(run, rng, tags, fams):
    """histories with several files, objects and stores"""
    scs = []
    for fam, (q, t) in fams.items():
        got = run.generate("LibGen", "LibGen", sim=(t if run.thorough else q, 80), env={"FAM": fam})
        scs += [dict(s, kind="lib", fam=fam) for s in got]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.sample(scs[-1])
    run.validate("LibTrace", tr, scs, tags=tags)


LIBRULE = ("scenario = random history of writing model and functions files, reading, changing, estimating, saving and loading "
           "several model objects, generated from spec/LibGen.tla; after every operation every object at hand is digested and "
           "judged against spec/Library.tla; a trace counts as non-trivial when it was replayed to its end")


def C08(run, rng):
    run.design("CacheDesign", needs=["KeyFuncs", "CopyIn", "CopyOut"])
    lib(run, rng, ["C08"], {"cache": (34, 500), "cachef": (12, 150), "cachen": (10, 150), "cachest": (12, 200), "store": (6, 60)})
    return "model_checking", LIBRULE


def C09(run, rng):
    lib(run, rng, ["C09"], {"store": (26, 400), "storec": (10, 120), "store2": (12, 150), "storeset": (16, 150), "storer": (14, 150), "storenew": (6, 40), "rd": (16, 200)})
    return "model_checking", LIBRULE


def C16(run, rng):
    scs = [dict(s, kind="data") for s in run.generate("DataGen", "DataGen", sim=(2500 if run.thorough else 250, 80))]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("DataTrace", tr, scs)
    return "model_checking", ("scenario = history of loading data frames (nine kinds of index, boundaries of all resolutions and types, "
                              "column orders, gaps, missing columns), edits of the caller's frames and storing, generated from "
                              "spec/DataGen.tla; every operation is judged against spec/DataLoad.tla")


def C17(run, rng):
    scs = []
    for fam, (q, t) in {"dag": (90, 900), "rev": (20, 200), "any": (40, 400)}.items():
        scs += [dict(s, kind="pf", fam=fam) for s in run.generate("PfGen", "PfGen", sim=(t if run.thorough else q, 80), env={"FAM": fam})]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("PfTrace", tr, scs)
    return "model_checking", ("scenario = random system of up to 12 definitions in random order (chains, shared and deep dependencies, standard "
                              "functions, functions file; circular and undefined ones), followed by settings of parameters, generated from "
                              "spec/PfGen.tla; values, equations, bound, observables and variances are judged against the least fixed point of "
                              "spec/ParaFunc.tla")


def C20(run, rng):
    scs = [dict(s, kind="dict") for s in run.generate("DictGen", "DictGen", sim=(600 if run.thorough else 80, 80))]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("DictTrace", tr, scs)
    return "model_checking", ("scenario = history of building, editing (in place or by new matrices), copying and processing two dictionaries of "
                              "system matrices with changing horizons, generated from spec/DictGen.tla; after every processing all objects at "
                              "hand and the same model as a file are digested and judged against spec/Dict.tla")


def C18(run, rng):
    one = run.generate("FaultGen", "FaultOne")
    if not run.thorough:
        one = pick(rng, one, 150)
    scs = one + run.generate("FaultGen", "FaultGen", sim=(400 if run.thorough else 40, 80))
    scs = [dict(s, kind="fault") for s in scs]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("FaultTrace", tr, scs)
    return "model_checking", ("scenario = history of writing and reading files, each correct or with one of the faults of spec/FaultGen.tla (all "
                              "faults once, and random ones in random models); which files have to be rejected is decided by FaultsOf in "
                              "spec/Faults.tla, correct ones are judged by their behaviour; all models at hand are digested after every file")


def C22(run, rng):
    scs = [dict(s, kind="samp") for s in run.generate("SampGen", "SampGen", sim=(500 if run.thorough else 60, 80))]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("SampTrace", tr, scs)
    return "model_checking", ("scenario = model file with a random prior section (families, order, notation) and a history of settings of parameters, "
                              "preparation and draws, generated from spec/SampGen.tla; support, existence of a solution (solved anew in the specification), "
                              "densities, distribution and reproducibility of the draws are judged against spec/Sampler.tla")


def C15(run, rng):
    run.design("ChainDesign", needs=["Counted", "Reset"])
    scs = [dict(s, kind="chain") for s in run.generate("ChainGen", "ChainGen", sim=(900 if run.thorough else 100, 200))]
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("ChainTrace", tr, scs)
    return "model_checking", ("scenario = model file with a random prior section and a history of fresh, resumed, appended and interrupted runs (by an exception, or "
                              "by the end of the process at a chosen step) on several backends, with queries of the chain and of its summaries, saving, loading and "
                              "reading again in between, generated from spec/ChainGen.tla; stored steps, their posteriors and all summaries are judged against spec/Chain.tla")


def C23(run, rng):
    run.design("PoolDesign", needs=["Renew"])
    scs = []
    for fam, n in (("pool", 16), ("poolest", 24), ("poolnl", 2)):
        for s in run.generate("SessGen", "SessGen", sim=(n * 8 if run.thorough else n, 40), env={"FAM": fam}):
            scs.append(dict(s, kind="pool", limit=300, workers=rng.choice([[2], [3], [1, 4], [5]])))
    tr = run.drive(scs)
    run.sample(scs[0])
    run.validate("PoolTrace", tr, scs)
    return "model_checking", ("spec/PoolDesign.tla is checked by TLC for all interleavings of the workers; scenario = a history of batch operations, estimation and settings "
                              "generated from spec/SessGen.tla, carried out serially and with pools of several sizes whose workers take differently long; all results and the model "
                              "left behind must be equal (spec/Pool.tla)")


SIMRULE = ("scenario = generated model file + history of solve/step/irfs calls; every single feature of the model "
           "language, random feature combinations, and grids of shock pairs; every step is one evaluation, a trace "
           "counts as non-trivial when it was replayed to its end")


def C01(run, rng):
    sim(run, rng, ["C01"])
    return "model_checking", SIMRULE


def C02(run, rng):
    run.design("OBCDesign", "OBCDesignT" if run.thorough else "OBCDesign")
    sim(run, rng, ["C02"])
    return "model_checking", SIMRULE


def C03(run, rng):
    run.design("OBCDesign", "OBCDesignT" if run.thorough else "OBCDesign")
    sim(run, rng, ["C03"])
    return "model_checking", SIMRULE


def C04(run, rng):
    sim(run, rng, ["C04"])
    sess(run, rng, ["C04"], {"irf": (40, 400)})
    return "model_checking", SIMRULE


def C24(run, rng):
    sim(run, rng, ["C24"])
    sess(run, rng, ["C24"], {"sol": (60, 1000), "solest": (16, 200)})
    return "model_checking", SIMRULE


LEVEL = {}
NOTES = {}
PROPS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
