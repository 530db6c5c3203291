"""C06: what the search publishes, whatever the solver does."""
import numpy as np

from vsim import worlds as W, solver
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C06"
RUNS = {"quick": 7000, "thorough": 60000}
RULE = "distinct event logs of runs in which a whole optimisation was driven through two or more solver outcomes"
STATE_MEASURE = "hash of (sequence of round verdicts, which round was published or which error raised)"
REAL = ["sidermit.optimization (optimizer, assignment, hyperpath, extended graph, costs, constraints)", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted outcomes; the real one, cut short, in some rounds"]
ASSUMPTIONS = ["the solver reports its outcome in the usual OptimizeResult fields"]
MUST_HIT = ["real_solver_round", "published", "refused", "solver_not_converged", "solver_infeasible", "solver_negative_frequency", "solver_nan_cost",
            "solver_raises_SolverCrash", "solver_raises_KeyboardInterrupt", "tie", "zeroed", "long_search"]
SHRINK = [["opts"], ["opts", "*", "rounds"], ["opts", "*", "rounds", "*", "probes"], ["world", "routes"], ["world", "demand", "cells"]]
EXC = ["SolverCrash", "ValueError", "ZeroDivisionError", "KeyboardInterrupt", "MemoryError", "LinAlgError"]


def draw_round(rng, costs):
    r = {"x": W.draw_freq(rng, rng.randint(1, 6), 1, 60), "probes": [W.draw_freq(rng, 4, 0.5, 90)] if rng.random() < 0.15 else [],
         "fun": W.r3(rng.uniform(100, 9e4) * rng.choice([1, 1, 1, 1, 1, 1e-3, 100, 1e5, 1e9, 1e200])), "cv": rng.choice([0.0, 0.0, 0.00099, -0.0005]), "status": rng.choice([1, 1, 2, 2, 4]), "success": None}
    if costs and rng.random() < 0.3:
        c = rng.choice(costs)
        r["fun"] = rng.choice([c, c, -c, c * (1 + 1e-12), c - 1e-6])
    k = rng.random()
    if k < 0.13:
        r["status"] = rng.choice([0, 3])
    elif k < 0.24:
        r["cv"] = rng.choice([0.001, 0.0011, 0.05, 0.099, 0.5, 40.0, "nan", -0.01])
    elif k < 0.36:
        j = rng.randrange(len(r["x"]))
        r["x"][j] = -rng.choice([1e-9, 1e-4, 0.01, 0.09, 0.5])
    elif k < 0.42:
        r["fun"] = "nan"
    elif k < 0.5:
        # bad and cheap: tempting
        r["fun"] = W.r3(rng.uniform(-10, 50))
        m = rng.random()
        if m < 0.4:
            r["status"] = rng.choice([0, 3])
        elif m < 0.8:
            r["cv"] = rng.choice([0.001, 0.01, 3.0])
        else:
            r["x"][0] = -0.03
    elif k < 0.56:
        r["exc"] = rng.choice(EXC)
    if rng.random() < 0.35:
        j = rng.randrange(len(r["x"]))
        if r["x"][j] >= 0:
            r["x"][j] = rng.choice([0.0, 0.01, 0.0416, 0.04166, 1 / 24, 0.0417, 0.042, 0.05, 0.9])
    if rng.random() < 0.15:
        r["success"] = rng.random() < 0.5
    if r["success"] is None:
        del r["success"]
    return r


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 6), (2, 2)), extra=2)
    opts = []
    small = world["city"]["n"] == 1 and len(world["routes"]) < 3
    for _ in range(rng.randint(1, 2)):
        rounds = []
        costs = []
        many = small and rng.random() < 0.06
        for _ in range(rng.randint(12, 40) if many else rng.randint(1, 6)):
            r = draw_round(rng, costs)
            rounds.append(r)
            if isinstance(r["fun"], float):
                costs.append(r["fun"])
            if r.get("exc"):
                if not many:
                    break
                del r["exc"]
        if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.2:
            rounds[0]["real"] = {"maxiter": rng.randint(2, 60)}
            rounds[0].pop("exc", None)
            if rng.random() < 0.5:
                rounds[0]["status"] = None
        opts.append({"rounds": rounds, "entry": rng.choice(["network", "network", "external", "method"]), "limit": rng.choice([None, 0, 1, 2, 3, 5, 9] if not many else [None, None, 11, 15, 30]),
                     "tol": rng.choice([0.01, 0.01, 0.5, 3.0]), "f": W.draw_freq(rng, 4) if rng.random() < 0.25 else None})
    return {"world": world, "opts": opts}


def execute(plan, env):
    w = W.build(plan["world"])
    for oi, o in enumerate(plan["opts"]):
        if not o["rounds"]:
            continue
        env.steps += 1
        f = W.freqs(w, o["f"]) if o["f"] else None
        script = solver.Script(o["rounds"], env)
        published = []

        def go():
            if o["entry"] == "network":
                opt = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"])
                published.append(opt)
                return opt.get_optimization_value()
            if o["entry"] == "method":
                opt = W.optimizer(w, f)
                published.append(opt)
                return opt.external_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"])
            return Optimizer.external_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"])

        with solver.using(script):
            try:
                out = C.outcome_exc(go)
            except solver.TooManyRounds:
                env.fail("does-not-stop", "the search asked for more than %d rounds although they settled" % script.limit)
        calls = script.calls
        if len(calls) > 10:
            env.probe("long_search")
        tag = "optimisation %d" % oi
        verd = ["x" if c.get("exc") else ("ok" if C.acceptable(c) else "bad") for c in calls]
        env.log("opt", oi, verd, out[0], out[1] if out[0] == "exc" else "")
        env.nontrivial = env.nontrivial or len(calls) > 1
        crashed = [c for c in calls if c.get("exc")]
        good = [c for c in calls if C.acceptable(c)]
        if out[0] == "ok":
            env.check(not crashed, "crash-hidden", lambda: "%s returned a result although round %d raised %s" % (tag, crashed[0]["i"], crashed[0]["exc"]))
            rec = C.check_published(env, out[1], calls, tag)
            env.state(verd, rec["i"])
            env.probe("published")
            if len([c for c in good if c["fun"] == rec["fun"]]) > 1:
                env.probe("tie")
            if C.published_x(rec["x"]) != rec["x"]:
                env.probe("zeroed")
            if o["entry"] == "network":
                again = published[0].get_optimization_value()
                env.check(again == out[1] or W.diff(list(again), list(out[1])) is None, "published-changes", lambda: "%s: the published value changed when read again" % tag)
        else:
            env.state(verd, out[1])
            env.probe("refused")
            if crashed:
                continue
            # legitimate reasons: nothing acceptable, or a round's frequencies leave the demand unserved
            if not good:
                if out[1] == "NoOptimalSolutionFoundException":
                    continue
            last = calls[-1]["x"] if calls else (o["f"] and W.vec_for(w, o["f"]))
            xs = last if last is not None else [r.mode.fini for r in w.net.get_routes()]
            again = [W.outcome(lambda: C.Ref(w, v)) for v in (xs, np.array(xs))]
            if any(a[0] == "exc" for a in again) and out[1] != "NoOptimalSolutionFoundException":
                env.probe("unserved")
                continue
            if not good:
                env.fail("wrong-error", "%s: no acceptable round, raised %s %s instead of the no-solution error" % (tag, out[1], out[2]))
            env.fail("result-withheld", "%s raised %s %s although round %d was acceptable" % (tag, out[1], out[2], good[0]["i"]))
