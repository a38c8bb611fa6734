#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

T = "The stable tests run one example model (parse it, one short estimation); "

p("C01", "Simulated paths solve the model equations as written",
  "For every model file that is accepted (any mix of leads and lags of any order, lagged shocks, hybrid variables, any order of declarations and equations, any of the supported notations), every simulated path satisfies every written equation in every period, with the model's own expected path in place of leads, and starts from the given state. In linear mode this includes the equation of the constrained variable.",
  ["programs", "inputs"], "all model files in the supported language x parameters x shocks x periods",
  T + "a wrong sign, lag chain or index for a syntax the example does not use is invisible to them.",
  ["pydsge/parser.py", "pydsge/gensys.py", "pydsge/symbols.py", "pydsge/engine.py", "pydsge/tools.py"],
  [("lead/lag expansion into auxiliary variables", "pydsge/parser.py:DSGE.parse"), ("symbolic differentiation into AA/BB/CC/PSI and the constraint row", "pydsge/parser.py:DSGE.get_matrices"), ("compression to the (p,q) system and solution", "pydsge/gensys.py:gen_sys")],
  [("vv", "names of the simulated variables, in order", "pydsge/gensys.py")], ["irfs", "t_func", "simulate"])

p("C02", "The bound binds exactly when it should",
  "Whenever a simulated period is reported as solved (flag 0) with durations found by the model itself, the constrained variable equals the larger of its rule value and the bound in that period, and it is never below the bound. All other equations keep holding with expectations that are consistent with the reported durations (l periods until the bound binds, then k periods at the bound), and in linear mode the bound is ignored and durations are zero.",
  ["programs", "inputs", "histories"], "all models x states x shock sequences x (l_max,k_max)",
  T + "no test looks at a simulated binding period at all.",
  ["pydsge/engine.py", "pydsge/gensys.py", "pydsge/tools.py"],
  [("regime matrices for every (l,k)", "pydsge/engine.py:preprocess_jittable"), ("search of (l,k)", "pydsge/engine.py:find_lk")],
  [("precalc_mat", "solution for every pair of expected durations", "pydsge/engine.py")], ["t_func", "irfs"])

p("C03", "Expected durations are the first consistent ones, failures are flagged",
  "Given a state and shocks, the reported durations are (0,0) if the unconstrained path stays above the bound over the horizon, and otherwise the lexicographically first pair (l,k) within (l_max,k_max) whose path respects the bound before, at the start of, at the end of and right after the spell; the horizon is the one requested by the caller. If there is no such pair a non-zero flag is returned (2 if k_max is exhausted) and the state is still the one implied by the reported durations.",
  ["inputs", "configurations"], "all states and shocks x (l_max,k_max) x models",
  T + "the estimation test would only notice a wrong search through one stored parameter draw.",
  ["pydsge/engine.py", "pydsge/tools.py", "pydsge/gensys.py"],
  [("find_lk / bruite_wrapper", "pydsge/engine.py"), ("l_max/k_max defaults and adjustment", "pydsge/gensys.py:gen_sys")],
  [("lks", "search horizon", "pydsge/gensys.py:gen_sys")], ["t_func(return_k=True)"])

p("C04", "Impulse responses are the requested experiment",
  "Impulse responses apply exactly the listed shocks (name, size, period; size one and period zero by default) starting from the given state (zero by default) for the requested number of periods, with forced durations, linear mode and a parameter override honoured. A batch of parameter vectors gives, member by member, what the single calls give, and unsolvable members are marked without affecting others. The call changes neither the model nor its arguments.",
  ["inputs", "histories", "configurations"], "all shock lists x states x options x batches",
  T + "irfs are not called by any stable test.",
  ["pydsge/tools.py"],
  [("shock list normalisation and period loop", "pydsge/tools.py:irfs"), ("work on a deep copy of the model", "pydsge/tools.py:irfs")], [], ["irfs"])

p("C05", "Simulation applies the given shocks and counterfactual masks",
  "Simulation returns, for every sample member, the path that starts at the given initial state and applies the given shocks one period after the other under that member's own parameters, with its durations and flags; parameters, shocks and initial states that are given explicitly take precedence over those of an extraction result. With a mask, exactly the shocks at non-missing mask entries are combined with the mask by the chosen operation (multiplication by default) and all others are left alone. Neither the inputs nor the model are changed.",
  ["inputs", "histories", "configurations"], "all samples (parameters, shocks, initial states) x masks x operations x linear or not",
  T + "simulate is not called by any stable test.",
  ["pydsge/tools.py"], [("simulate", "pydsge/tools.py"), ("mask", "pydsge/tools.py")], [], ["simulate", "mask"])

p("C06", "Reported parameters and solved system never drift apart",
  "After any sequence of parameter settings, queries, likelihood evaluations and simulations, successful or failing, the simulated behaviour, observation mapping, bound and shock covariance are those of a fresh model at the parameters the model reports. A parameter setting that fails leaves parameters and behaviour as they were, and queries, simulations, extractions, decompositions and sampling never change them nor the horizon, whatever horizon they are called with.",
  ["histories", "fault_sequences"], "all finite histories of set/get/simulate/evaluate calls, including failing ones",
  T + "no test performs two settings in a row, or a failing one.",
  ["pydsge/mpile.py", "pydsge/gensys.py", "pydsge/estimation.py", "pydsge/tools.py"],
  [("set_par recompiles the system", "pydsge/mpile.py:set_par"), ("gen_sys", "pydsge/gensys.py")],
  [("par", "current parameters", "pydsge/gensys.py:gen_sys_from_yaml"), ("sys/precalc_mat/hx", "current solution", "pydsge/gensys.py"), ("filter.Q", "shock covariance in the filter", "pydsge/mpile.py:set_par")], ["get_par", "irfs", "obs", "get_cov"])

p("C07", "Parameter access returns the documented values and copies",
  "A parameter set by name, as a full vector, as a vector of estimated parameters or through a named parameter set is read back unchanged under every form of access (by name, full, estimated only, as dictionary), all other parameters keep their values (calibrated values for named sets), derived parameters follow their definitions, and named sets have the values declared in the model file. What is returned is a copy: editing it or the vector passed in changes nothing, and unknown or derived names are rejected.",
  ["histories", "inputs"], "all sequences of set and get calls in all documented forms",
  T + "parameters are read once by name.",
  ["pydsge/mpile.py"], [("get_par", "pydsge/mpile.py"), ("set_par", "pydsge/mpile.py")],
  [("par_fix", "calibration", "pydsge/parser.py"), ("prior_arg", "positions of the estimated parameters", "pydsge/parser.py")], ["get_par", "set_par"])

p("C08", "Reading a model is independent of what was read before",
  "Reading a model file gives a model that behaves as the current content of that file and of its functions file prescribes, located at that file's folder, whatever was read, changed, estimated or saved before in the same process. Models obtained from separate reads never influence each other, also when they were read from the same or identical files.",
  ["histories"], "all histories of reads, file edits and uses of earlier models",
  T + "each test process reads one model once.",
  ["pydsge/parser.py"], [("cache of parsed models keyed by file contents", "pydsge/parser.py:crawl_cached_models"), ("deepcopy out of the cache", "pydsge/parser.py:DSGE.read")],
  [("cached_models", "process-wide cache", "pydsge/parser.py")], ["DSGE.read"])

p("C09", "Saving and loading preserve models and results",
  "A model saved at any point of its life and loaded again, from the stored object or by parsing the stored text anew, in the same or in another process, has the same name, data, observables, priors, mode, settings of the estimation (linear or not, ensemble size, seed, transformed parameters, measurement errors) and behaviour at equal parameters, and evaluates the same posterior. Stored result dictionaries come back with equal keys and values under the same path and suffix, and saving changes nothing in the model.",
  ["histories", "configurations"], "all model life-cycle points x save/load variants x paths and suffixes",
  T + "the one loading test needs a file that is not shipped.",
  ["pydsge/clsmethods.py", "pydsge/parser.py"], [("save_meta", "pydsge/clsmethods.py"), ("DSGE.load", "pydsge/parser.py"), ("save_rdict/load_rdict", "pydsge/clsmethods.py")],
  [("fdict", "what is persisted", "pydsge/parser.py")], ["save", "DSGE.load", "save_rdict", "load_rdict"])

p("C10", "Linear likelihood and smoother are those of the state-space model",
  "With the linear filter, the log-likelihood of any data set equals the exact Gaussian likelihood of the model's own linear state-space form (its unconstrained transition, observation mapping with intercept, shock covariance and measurement covariance, started from the stationary distribution), and smoothed states are the exact conditional means. Repeating the evaluation gives the same value.",
  ["inputs", "programs"], "all data sets x parameters x measurement covariances x models with as many shocks as observables",
  T + "only the nonlinear filter is exercised, against one stored draw.",
  ["pydsge/filtering.py", "pydsge/estimation.py"], [("run_filter", "pydsge/filtering.py"), ("create_filter", "pydsge/filtering.py")],
  [("filter", "F, H, Q, R, P of the filter", "pydsge/filtering.py")], ["run_filter", "get_ll"])

p("C11", "The posterior is a pure function of the parameters",
  "The log posterior of a parameter vector is the tempered log-likelihood plus the log prior, minus infinity if the prior or the likelihood is, and never an exception. It depends on nothing but the parameter vector and the options fixed at preparation: not on earlier evaluations (also failed ones), current parameters or the state of the random number generator, which it leaves untouched.",
  ["inputs", "histories", "fault_sequences"], "all parameter vectors in and out of the support x all histories of evaluations, settings and random draws",
  T + "a posterior that leaks state passes as long as the one stored chain is reproduced.",
  ["pydsge/estimation.py", "pydsge/filtering.py"], [("llike/lprob closures", "pydsge/estimation.py:prep_estim")],
  [("filter.Q", "is overwritten at each evaluation", "pydsge/estimation.py:llike")], ["lprob", "llike", "lprior"])

p("C12", "Extracted shocks reproduce the smoothed data",
  "Shocks extracted with the linear filter, fed back into a simulation from the extracted initial state under the extracted parameters, reproduce the smoothed states, hence the data up to measurement error (exactly as that error vanishes); with the nonlinear filter the replayed observables stay close to the data as well, with the bound respected. Each sample member carries its own parameters, initial state and shocks, in the order of the model's shocks, the result is reproducible given the seed, and the model's data and parameters survive.",
  ["inputs", "configurations", "histories"], "all data sets x parameter samples x seeds",
  T + "extract is not called by any stable test.",
  ["pydsge/filtering.py", "pydsge/tools.py"], [("extract", "pydsge/filtering.py"), ("get_eps_lin", "pydsge/filtering.py")], [], ["extract", "simulate"])

p("C13", "Historical decompositions add up",
  "In a historical decomposition the contributions of all shocks sum to the simulated states in every period and for every variable, in linear and in constrained periods, and the reported means are that simulation. A shock that never occurs contributes only its share of the initial state and of the bound, and sorting into positive and negative contributions preserves every contribution.",
  ["inputs", "histories"], "all shock sequences, initial states and parameter samples",
  T + "nhd is not called by any stable test.",
  ["pydsge/stats.py"], [("nhd", "pydsge/stats.py"), ("sort_nhd", "pydsge/stats.py")], [], ["nhd", "sort_nhd"])

p("C14", "Variance decompositions are shares of the right responses",
  "A forecast error variance decomposition gives, for every variable that responds at all, non-negative shares that sum to one over shocks, each proportional to the sum over the sample of squared responses at the horizon of that variable to that shock alone, relative to no shock, from the states and parameters of the sample.",
  ["inputs", "configurations"], "all samples x horizons x sample sizes x linear or not",
  T + "gfevd is not called by any stable test.",
  ["pydsge/stats.py"], [("gfevd", "pydsge/stats.py")], [], ["gfevd"])

p("C15", "Sampling runs are stored, resumed and summarised faithfully",
  "A sampling run stores exactly the requested number of steps of all walkers with the log posterior of each stored point; a fresh run replaces what the file held, while resuming and appending keep it and add to it, resuming from the last stored state; an interrupted run leaves exactly the steps it had completed, and a run for which no file is named uses the one named last. Equal seeds give equal chains, and mode, posterior mean, posterior draws and summaries are those of the last `tune` stored steps, in terms of the model parameters.",
  ["histories", "configurations"], "all histories of fresh, resumed and appended runs x seeds x backends",
  T + "one fresh run is compared in its first stored point.",
  ["pydsge/mcmc.py", "pydsge/clsmethods.py", "pydsge/mpile.py", "pydsge/stats.py"], [("mcmc", "pydsge/mcmc.py"), ("get_chain/get_log_prob", "pydsge/clsmethods.py"), ("posterior_sampler", "pydsge/mpile.py")],
  [("backend file", "chain on disk", "pydsge/mcmc.py"), ("tune/mode_x/mode_f", "summary of the last run", "pydsge/mcmc.py")], ["mcmc", "get_chain", "get_log_prob", "get_par"])

p("C16", "Loaded data are the observables over the requested range",
  "Loading data keeps exactly the model's observables, in the model's order, over exactly the requested range of the index (both ends included), for every kind of index and any column order, without changing the caller's frame or sharing memory with it. Data with missing observables or missing values in the range are rejected, and then the previously loaded data stay in place.",
  ["inputs", "histories"], "all frames, indices and ranges, in any sequence of loads",
  T + "one frame with a date index is loaded once.",
  ["pydsge/clsmethods.py"], [("load_data", "pydsge/clsmethods.py")], [("data", "current data", "pydsge/clsmethods.py")], ["load_data", "data"])

p("C17", "Derived parameters follow their definitions in any order",
  "Derived parameters have the values of their definitions at the current parameters, whatever the order in which they are declared and however deep they depend on each other, including functions from the functions file and the supported standard functions, and they enter equations, bound, observables and shock variances with these values. Circular or undefined definitions are rejected, and repeated evaluation at changed parameters is never answered with values of earlier parameters.",
  ["programs", "histories"], "all dependency graphs and declaration orders of definitions x parameter histories",
  T + "one fixed set of definitions at one parameter vector.",
  ["pydsge/parser.py"], [("retry loop over the definitions", "pydsge/parser.py:DSGE.get_matrices"), ("memoised external functions", "pydsge/parser.py:ctf_reducer")], [], ["get_par", "irfs"])

p("C18", "Malformed model files are rejected",
  "A model file with an undeclared variable or undefined parameter, a number of equations that does not fit the number of variables, no constraint or more than one, an ill-formed constraint, a variable name with blanks, a declared variable or shock that appears nowhere, a lead in the constraint, a lag, lead or shock in an observation equation, or a positive bound is rejected with an error and never yields a model that simulates. A rejected file leaves no trace: correcting it and reading it again gives the corrected model.",
  ["programs", "fault_sequences"], "all single-fault mutations of accepted model files",
  T + "only a correct file is parsed.",
  ["pydsge/parser.py", "pydsge/gensys.py"], [("checks in DSGE.parse", "pydsge/parser.py"), ("checks in get_matrices and gen_sys_from_yaml", "pydsge/parser.py, pydsge/gensys.py")], [], ["DSGE.read", "set_par"])

p("C19", "Expected constraint trajectories match the expected path",
  "The reported expected trajectory of the constraint for a state and shock equals, at every horizon, the rule value of the constrained variable along the path expected under the reported or given durations, and the duration maps are the distances from the bound right after the spell for each alternative duration. Both follow the current parameters.",
  ["inputs", "histories"], "all states, shocks and durations x parameter histories",
  T + "neither is called by any test.",
  ["pydsge/tools.py", "pydsge/engine.py"], [("traj/k_map", "pydsge/tools.py"), ("preprocess_tmats", "pydsge/engine.py")], [("precalc_tmat", "cached trajectories", "pydsge/engine.py")], ["traj", "k_map", "shock2state"])

p("C20", "Models given as matrices behave like the same model as a file",
  "A model given as a dictionary of system matrices gives the same transitions, durations, flags, impulse responses and observables as the same model given as a file at the same parameters, with and without observables and shocks in the constraint. A changed dictionary or horizon is always processed anew, an equal one is equivalent to the first.",
  ["programs", "histories"], "all models x all histories of processed dictionaries",
  T + "gen_sys_from_dict is not called by any stable test.",
  ["pydsge/gensys.py"], [("gen_sys_from_dict and its cache", "pydsge/gensys.py")], [("processed_mdicts", "process-wide cache", "pydsge/gensys.py")], ["gen_sys_from_dict"])

p("C21", "Observables are the declared functions of the states",
  "Observables computed from any state or series of states (single state, series, stack of series, with the model's or with given parameters) equal their declared expressions in the model variables, including constants and parameters, in the declared order. Variable and observable lookups return the positions of the named items in states and observables and reject unknown names.",
  ["programs", "inputs"], "all observation equations x state shapes x parameters",
  T + "no test computes observables from states.",
  ["pydsge/tools.py", "pydsge/gensys.py", "pydsge/parser.py", "pydsge/clsmethods.py"], [("o_func", "pydsge/tools.py"), ("ZZ0/ZZ1 and hx", "pydsge/parser.py, pydsge/gensys.py"), ("vix/oix", "pydsge/clsmethods.py")], [], ["obs", "vix", "oix", "t_func(get_obs=True)"])

p("C22", "Prior draws lie in the prior and have a solution",
  "A prior sample has the requested size with one value per estimated parameter in the declared order, each within the support of its prior, and every draw admits a model solution (and a finite posterior if requested). Equal seeds give equal samples, different members are different draws, and declared prior families have the declared moments.",
  ["inputs", "configurations"], "all prior sections x seeds x sizes",
  T + "one sample of one prior is used as a starting point.",
  ["pydsge/mpile.py"], [("prior_sampler", "pydsge/mpile.py")], [], ["prior_sampler", "get_par('prior')", "lprior"])

p("C23", "Worker processes change nothing but speed",
  "Batch operations (impulse responses, simulation, shock extraction, prior sampling, sampling runs) give the same results in the same order whether they run in a worker pool of any size or serially, under any scheduling of the workers, and the model stays usable for every other operation afterwards, also if it was prepared without a pool.",
  ["schedules", "histories"], "all interleavings of workers, pool sizes and call sequences",
  T + "results of one pooled run are compared with a stored one.",
  ["pydsge/estimation.py", "pydsge/tools.py", "pydsge/filtering.py", "pydsge/mcmc.py"], [("create_pool/mapper", "pydsge/estimation.py"), ("runners working on copies", "pydsge/tools.py")], [("pool", "worker pool", "pydsge/estimation.py")], ["irfs", "simulate", "extract", "prior_sampler", "mcmc"])

p("C24", "Exactly the parameters with a unique stable solution are accepted",
  "Setting parameters succeeds if and only if the linear model at these parameters has exactly one stable solution, and then the linear impulse responses are that stable solution; otherwise an error is raised (and the posterior is minus infinity there).",
  ["inputs", "programs"], "all models x parameters, determinate, indeterminate and explosive",
  T + "no test sets parameters without a solution.",
  ["pydsge/gensys.py"], [("klein with the Blanchard-Kahn check", "pydsge/gensys.py:gen_sys")], [], ["set_par", "irfs(linear=True)", "lprob"])

p("C25", "The nonlinear likelihood follows the constrained transition",
  "With the nonlinear (ensemble) filter, likelihood and filtered states are those of an ensemble that starts from the stationary distribution of the linear model, is moved by the model's own constrained transition with shocks of the declared covariance and with the search horizon of the prepared estimation, and is updated with the measurement covariance filter.R: the log posterior is prior plus temp times this likelihood at the evaluated parameters, get_ll and run_filter give it at the current parameters, in reduced and full form, for every data set, ensemble size and parameter vector, also where the number of states differs from the prepared one, independent of what was computed before.",
  ["inputs", "histories", "configurations"], "all data sets x parameters x ensemble sizes x horizons x measurement covariances x histories",
  T + "one stored likelihood of one model at one parameter vector, compared loosely.",
  ["pydsge/filtering.py", "pydsge/estimation.py", "pydsge/tools.py"], [("run_filter: transition, initial covariance, shock covariance", "pydsge/filtering.py"), ("llike/lprob", "pydsge/estimation.py"), ("t_func(get_obs=True)", "pydsge/tools.py")], [], ["lprob", "get_ll", "run_filter"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
