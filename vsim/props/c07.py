"""C07: the outer loop's feedback and length."""
import numpy as np

from vsim import worlds as W, solver
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C07"
RUNS = {"quick": 2400, "thorough": 30000}
RULE = "distinct event logs of runs in which an optimisation ran two or more rounds or stopped at a limit or tolerance"
STATE_MEASURE = "hash of (number of rounds, reason of the stop, limit, size of the problem, rounds whose route choice differed)"
REAL = ["sidermit.optimization (optimizer, assignment, hyperpath, extended graph, costs, constraints)", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted answers that probe the objective it was given; the real one, cut short, in some rounds"]
ASSUMPTIONS = ["with initial frequencies given, 'those before the first round' may mean them or the modes' initial frequency"]
MUST_HIT = ["real_solver_round", "stop_tolerance", "stop_limit", "feedback_matters", "settled_at_start", "exact_tolerance", "after_earlier", "unserved", "stop_crash", "long_search"]
SHRINK = [["opts"], ["opts", "*", "rounds"], ["opts", "*", "rounds", "*", "probes"], ["world", "routes"], ["world", "demand", "cells"]]


def q(x):
    """Exactly representable in binary: sums and differences carry no rounding."""
    return round(x * 16) / 16.0


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=3)
    for m in world["modes"]:
        m["fini"] = q(m["fini"])
    opts = []
    for _ in range(rng.randint(1, 3)):
        tol = rng.choice([0.0625, 0.5, 0.5, 2.0, 0.01, 8.0])
        limit = rng.choice([None, None, 0, 1, 2, 3, 4])
        if rng.random() < 0.08:
            tol, limit = 0.0, rng.choice([0, 1, 3])
        n = rng.randint(1, 5)
        if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.12:
            n = rng.randint(7, 22)
            limit = rng.choice([None, None, 6, 8, 12, 20] if tol else [6, 8, 12])
        rounds = []
        x = [q(rng.uniform(1, 60)) for _ in range(6)]
        kind = rng.choice(["jump", "converge", "oscillate", "exact", "settle"])
        for j in range(n):
            if kind == "jump":
                x = [q(rng.choice([rng.uniform(0.2, 4), rng.uniform(1, 60), rng.uniform(60, 300)])) for _ in range(6)]
            elif kind == "converge":
                x = [q(max(0.0625, a + rng.choice([-1, 1]) * 16.0 / 2 ** j)) for a in x]
            elif kind == "oscillate":
                x = x[::-1] if j % 2 else x
            elif kind == "exact" and j:
                x = list(x)
                x[0] += rng.choice([1, -1]) * tol if tol != 0.01 else 0.25
                x[0] = q(abs(x[0]))
            elif kind == "settle" and j >= n - 2 and j:
                x = [a + 0.0 for a in x]
            r = {"x": list(x), "probes": [W.draw_freq(rng, 5, 0.5, 90) for _ in range(rng.choice([1, 1, 2]))], "fun": W.r3(rng.uniform(10, 9e4)),
                 "cv": 0.0, "status": rng.choice([1, 2, 2, 2, 0]), "reuse": rng.random() < 0.5}
            if rng.random() < 0.25:
                r["x"][rng.randrange(6)] = rng.choice([0.0, 0.01, 0.03125, 0.041, 0.0625])
            if rng.random() < (0.04 if n < 7 else 0.005):
                r["exc"] = rng.choice(["SolverCrash", "KeyboardInterrupt", "ValueError"])
            rounds.append(r)
            if r.get("exc"):
                break
        o = {"rounds": rounds, "limit": limit, "tol": tol, "entry": rng.choice(["network", "external"]),
             "f": [q(v) for v in W.draw_freq(rng, 4)] if rng.random() < 0.4 else None}
        if rng.random() < 0.1:
            # the very first answer is already near the initial frequencies
            o["rounds"][0]["x"] = {"rel": [1.0]}
            o["f"] = None
        if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.2:
            o["rounds"][rng.randrange(len(rounds))]["real"] = {"maxiter": rng.randint(2, 40)}
        opts.append(o)
    return {"world": world, "opts": opts}


def dist(a, b):
    return sum(abs(u - v) for u, v in zip(a, b))


def execute(plan, env):
    w = W.build(plan["world"])
    for oi, o in enumerate(plan["opts"]):
        if not o["rounds"]:
            continue
        if oi:
            env.probe("after_earlier")
        n = len(w.net.get_routes())
        f = W.freqs(w, o["f"]) if o["f"] else None
        script = solver.Script(o["rounds"], env, limit=len(o["rounds"]) + 25)

        def go():
            if o["entry"] == "network":
                return Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"]).get_optimization_value()
            return Optimizer.external_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"])

        endless = False
        with solver.using(script):
            try:
                out = C.outcome_exc(go)
            except solver.TooManyRounds:
                endless = True
                out = ("exc", "TooManyRounds", None)
        calls = script.calls
        if len(calls) > 7:
            env.probe("long_search")
        fini = [float(r.mode.fini) for r in w.net.get_routes()]
        cur = [float(f[r.id]) for r in w.net.get_routes()] if f is not None else list(fini)
        # what route choice each round must have used
        seen_stop = None
        differed = 0
        for ci, c in enumerate(calls):
            env.steps += 1
            if seen_stop is not None:
                env.fail("ran-on", "optimisation %d ran round %d after it should have stopped (%s); tolerance %r limit %r, frequencies %r" % (
                    oi, ci, seen_stop, o["tol"], o["limit"], [k.get("x") for k in calls]))
            ref = W.outcome(lambda: C.Ref(w, np.array(cur)))
            env.check(ref[0] == "ok", "wrong-feedback", lambda: "round %d was run although the frequencies before it, %r, leave demand unserved (%s)" % (ci, cur, ref[1]))
            ref = ref[1]
            for p in c["probes"]:
                want = ref.vrc(p["x"])
                env.check(p["same"], "argument-changed", "the objective changed the solver's vector")
                env.check(W.close(want, p["fun"], 1e-9, 1e-6), "wrong-feedback", lambda: "round %d of optimisation %d at %r costs %r, route choice at the previous frequencies %r gives %r" % (
                    ci, oi, p["x"], p["fun"], cur, want))
                if ci and not W.close(C.Ref(w, fini).vrc(p["x"]), p["fun"], 1e-9, 1e-6):
                    differed += 1
            if c.get("exc"):
                seen_stop = "the solver crashed"
                continue
            x = c["x"]
            d = [dist(cur, x)]
            if ci == 0 and f is not None:
                d.append(dist(fini, x))
            near = [v < o["tol"] for v in d]
            if any(abs(v - o["tol"]) < 1e-7 and v != o["tol"] for v in d):
                near = [True, False]         # rounding decides: either
            if any(v == o["tol"] for v in d) and o["tol"]:
                env.probe("exact_tolerance")
            stop_tol = near[0] if len(set(near)) == 1 else None
            stop_lim = o["limit"] is not None and ci >= o["limit"]
            last = ci == len(calls) - 1
            if stop_tol:
                seen_stop = "tolerance"
            elif stop_lim:
                seen_stop = "limit"
            elif stop_tol is None:
                if last:
                    seen_stop = "either"
            if ci == 0 and seen_stop == "tolerance":
                env.probe("settled_at_start")
            cur = x
        env.log("opt", oi, len(calls), seen_stop, out[0], out[1] if out[0] == "exc" else "")
        env.state(len(calls), seen_stop, o["limit"], n, differed > 0)
        if differed:
            env.probe("feedback_matters")
        if seen_stop is None:
            # it stopped (or was refused) without a reason yet
            nxt = W.outcome(lambda: C.Ref(w, np.array(cur)))
            if not endless and out[0] == "exc" and nxt[0] == "exc":
                env.probe("unserved")
                continue
            if endless:
                env.check(False, "does-not-stop", lambda: "optimisation %d: still going after %d rounds; tolerance %r limit %r" % (oi, len(calls), o["tol"], o["limit"]))
            env.fail("stopped-early", "optimisation %d stopped after %d rounds (%s) although the last frequencies are %r away from the previous and tolerance %r limit %r" % (
                oi, len(calls), out[1] if out[0] == "exc" else "published", dist(calls[-1]["x"], calls[-2]["x"]) if len(calls) > 1 and "x" in calls[-1] else None, o["tol"], o["limit"]))
        env.check(not endless, "does-not-stop", lambda: "optimisation %d did not stop" % oi)
        env.probe({"tolerance": "stop_tolerance", "limit": "stop_limit"}.get(seen_stop, "stop_crash"))
        env.nontrivial = True
        if out[0] == "ok":
            C.check_published(env, out[1], calls, "optimisation %d" % oi)
