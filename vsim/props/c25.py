"""C25: the problem put to the numerical solver in every round."""
import numpy as np

from vsim import worlds as W, solver
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C25"
RUNS = {"quick": 2400, "thorough": 24000}
RULE = "distinct event logs of runs in which the simulated solver took apart the problem of two or more rounds"
STATE_MEASURE = "hash of (round number, number of routes and modes, which kinds of limits were violated somewhere, edits and failures before)"
REAL = ["sidermit.optimization (optimizer, assignment, hyperpath, extended graph, costs, constraints)", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - the simulator plays the solver: it evaluates the objective and every limit where it likes and returns what it likes; the real one, cut short, in some rounds"]
ASSUMPTIONS = ["flows at given frequencies are those of the package's assignment, put together without Optimizer (conservation is C09)",
               "a limit that no frequencies can break may be left out"]
MUST_HIT = ["several_rounds", "capacity_broken", "stop_capacity_broken", "both_directions", "shared_street", "two_modes", "edited", "after_crash", "nested", "line_split",
            "given_frequencies", "real_solver_round", "switched_off"]
SHRINK = [["opts"], ["opts", "*", "edits"], ["opts", "*", "rounds"], ["world", "routes"], ["world", "demand", "cells"]]


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 6), (2, 4)), extra=3)
    for m in world["modes"]:
        # limits near what the solver visits, so that they matter
        if rng.random() < 0.5:
            m["fmax"] = W.r3(rng.uniform(1, 60))
        if rng.random() < 0.5:
            m["kmax"] = W.r3(rng.uniform(0.5, 400))
    if len(world["modes"]) == 1 and rng.random() < 0.5:
        world["modes"][0]["d"] = rng.choice([1, 2, 3, 4])
    opts = []
    for k in range(rng.randint(1, 3)):
        rounds = []
        for j in range(rng.choice([1, 2, 2, 3, 4])):
            r = {"x": W.draw_freq(rng, rng.randint(2, 6), 0.3, 90), "fun": W.r3(rng.uniform(100, 9e4)), "cv": 0.0, "status": rng.choice([1, 2, 2, 0]),
                 "probes": [], "at": [[W.r3(rng.choice([0.001, rng.uniform(0.05, 4), rng.uniform(1, 60), rng.uniform(60, 500)])) for _ in range(5)] for _ in range(3)],
                 "reuse": rng.random() < 0.5, "nested": rng.random() < 0.3}
            if rng.random() < 0.25:
                r["x"][rng.randrange(len(r["x"]))] = rng.choice([0.0, 0.02, 0.0416])
            if rng.random() < 0.05:
                r["exc"] = rng.choice(["SolverCrash", "KeyboardInterrupt", "ValueError", "MemoryError"])
            rounds.append(r)
            if r.get("exc"):
                break
        if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.1:
            rounds[rng.randrange(len(rounds))]["real"] = {"maxiter": rng.randint(2, 20)}
        edits = []
        if k:
            for _ in range(rng.choice([0, 1, 1, 2])):
                edits.append([rng.randrange(2), rng.choice(["kmax", "fmax", "fini", "t"]), W.r3(rng.uniform(0.5, 90))])
        opts.append({"rounds": rounds, "edits": edits, "limit": rng.choice([None, 1, 3, 3]), "tol": rng.choice([0.01, 0.01, 1.0]),
                     "entry": rng.choice(["network", "external", "internal"]), "f": W.draw_freq(rng, 4) if rng.random() < 0.4 else None})
    return {"world": world, "opts": opts}


def values(fun, x):
    return [float(v) for v in np.atleast_1d(fun(np.array(x)))]


def spread(b, n):
    b = np.atleast_1d(np.asarray(b, dtype=float))
    return [float(v) for v in (np.repeat(b, n) if len(b) == 1 else b)]


def limits(points, args, kw):
    """Everything the solver was told to keep at or below zero, as columns of
    values at the given points."""
    cols = []

    def between(rows, lb, ub):
        n = len(rows[0])
        for i, (lo, hi) in enumerate(zip(spread(lb, n), spread(ub, n))):
            if hi < np.inf:
                cols.append([r[i] - hi for r in rows])
            if lo > -np.inf:
                cols.append([lo - r[i] for r in rows])
    cons = kw.get("constraints", args[5] if len(args) > 5 else ())
    for c in (cons if isinstance(cons, (list, tuple)) else [cons]):
        if c is None:
            continue
        if isinstance(c, dict):
            rows = [values(c["fun"], x) for x in points]
            between(rows, 0.0, np.inf if c["type"] == "ineq" else 0.0)
        elif hasattr(c, "A"):
            between([[float(v) for v in np.atleast_1d(np.asarray(c.A) @ np.array(x))] for x in points], c.lb, c.ub)
        else:
            between([values(c.fun, x) for x in points], c.lb, c.ub)
    b = kw.get("bounds", args[4] if len(args) > 4 else None)
    if b is not None:
        n = len(points[0])
        if hasattr(b, "lb"):
            lb, ub = spread(b.lb, n), spread(b.ub, n)
        else:
            lb = [-np.inf if p[0] is None else p[0] for p in b]
            ub = [np.inf if p[1] is None else p[1] for p in b]
        between([list(x) for x in points], lb, ub)
    return cols


def expected(w, ref, points, env):
    """(what, column) of every limit the plan calls for."""
    routes = w.net.get_routes()
    out = []
    for i, r in enumerate(routes):
        out.append(("the frequency of %s at least zero" % r.id, [-x[i] for x in points]))
    flows = [ref.flows(x)[3] for x in points]
    for i, r in enumerate(routes):
        col = []
        for load in flows:
            both = load[r.id] if r.id in load else {}
            mx = [max([0.0] + [float(v) for v in both[d].values()]) for d in both]
            if len(mx) > 1 and min(mx) > 0:
                env.probe("both_directions")
            col.append(max([0.0] + mx) - r.mode.kmax)
        if max(col) > 0:
            env.probe("capacity_broken")
        out.append(("the load of %s within its vehicle" % r.id, col))
    for e in w.graph.get_edges():
        a, b = str(e.node1.id), str(e.node2.id)
        for m in w.modes:
            uses = [0] * len(routes)
            for i, r in enumerate(routes):
                if r.mode is m:
                    for seq in (r.nodes_sequence_i, r.nodes_sequence_r):
                        uses[i] += sum(1 for s, t in zip(seq, seq[1:]) if str(s) == a and str(t) == b)
            if not any(uses):
                continue
            if sum(1 for u in uses if u) > 1:
                env.probe("shared_street")
            if m.d > 1:
                env.probe("line_split")
            col = [sum(u * v for u, v in zip(uses, x)) / m.d - m.fmax / m.d for x in points]
            if max(col) > 0:
                env.probe("stop_capacity_broken")
            out.append(("mode %s on the street from %s to %s within its stops' capacity" % (m.name, a, b), col))
    return out


def near(u, v):
    return all(abs(a - b) <= 1e-7 + 1e-9 * max(abs(a), abs(b)) for a, b in zip(u, v))


def changes(col):
    return not near(col, [col[0]] * len(col))


def execute(plan, env):
    w = W.build(plan["world"])
    other = None
    crashed = edited = 0
    total = 0
    for oi, o in enumerate(plan["opts"]):
        if not o["rounds"]:
            continue
        for mi, key, v in o["edits"]:
            setattr(w.modes[mi % len(w.modes)], key, v)
            edited += 1
            env.probe("edited")
        n = len(w.net.get_routes())
        if len({id(r.mode) for r in w.net.get_routes()}) > 1:
            env.probe("two_modes")
        f = W.freqs(w, o["f"]) if o["f"] else None
        fini = [float(r.mode.fini) for r in w.net.get_routes()]
        start = [float(f[r.id]) for r in w.net.get_routes()] if f is not None else fini
        cur = [start]
        script = solver.Script(o["rounds"], env, limit=len(o["rounds"]) + 8)

        def inspect(rec, fun, x0, args, kw):
            i = rec["i"]
            env.steps += 1
            tag = "optimisation %d round %d" % (oi, i)
            if i:
                cur.append(script.calls[i - 1]["x"])
            prev = cur[-1]
            env.check(len(x0) == n and (near(x0, fini) or near(x0, prev) or near(x0, start)), "wrong-start", lambda: "%s starts at %r; modes' initial frequencies %r, frequencies before %r" % (
                tag, list(x0), fini, prev))
            r = o["rounds"][min(i, len(o["rounds"]) - 1)]
            points = [[float(p[k % len(p)]) * (1 + 0.25 * (k // len(p))) for k in range(n)] for p in r["at"]]
            ref = W.outcome(lambda: C.Ref(w, np.array(prev)))
            if ref[0] != "ok":
                env.fail("wrong-problem", "%s runs although the frequencies before it, %r, leave demand unserved" % (tag, prev))
            ref = ref[1]
            if any(v == 0 for v in prev):
                env.probe("switched_off")
            if r.get("nested") and other is not None:
                # another optimizer of the same inputs evaluated in between
                env.probe("nested")
                other.VRC(np.array(points[-1]))
                other.get_constrains(np.array(points[0]))
            work = np.array(x0)
            order = [0, 1, 2, 0] if r.get("nested") else [0, 1, 2]
            for k in order:
                if r["reuse"]:
                    work[:] = points[k]
                    arg = work
                else:
                    arg = np.array(points[k])
                got = float(fun(arg))
                env.check(near(arg, points[k]), "argument-changed", "%s: the objective changed the solver's vector" % tag)
                want = ref.vrc(points[k])
                env.check(W.close(want, got, 1e-9, 1e-6), "wrong-objective", lambda: "%s at %r minimises %r, the cost with its route choice (at %r) is %r" % (tag, points[k], got, prev, want))
            have = limits(points, args, kw)
            want = expected(w, ref, points, env)
            for what, col in want:
                if changes(col) or col[0] > 1e-7:
                    env.check(any(near(col, h) for h in have), "limit-missing", lambda: "%s: nothing keeps %s (excess %r at %r; frequencies before %r)" % (tag, what, col, points, prev))
            for h in have:
                if changes(h) or h[0] > 1e-7:
                    env.check(any(near(h, col) for _, col in want), "limit-invented", lambda: "%s: the solver must keep %r at or below zero at %r, which no capacity, stop or frequency limit is" % (tag, h, points))
            hit = tuple(sorted({("load" if "load" in what else "stop") for what, col in want if max(col) > 0}))
            env.log("round", oi, i, n, len(have), hit)
            env.state(min(i, 4), n, len(w.modes), hit, min(edited, 2), min(crashed, 1))
            if crashed:
                env.probe("after_crash")
        script.inspect = inspect
        if f is not None:
            env.probe("given_frequencies")

        def go():
            if o["entry"] == "network":
                return Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"]).get_optimization_value()
            if o["entry"] == "external":
                return Optimizer.external_optimization(w.graph, w.demand, w.pax, w.net, f, o["tol"], o["limit"])
            opt = Optimizer(w.graph, w.demand, w.pax, w.net, f)
            return opt.internal_optimization()

        with solver.using(script):
            try:
                out = C.outcome_exc(go)
            except solver.TooManyRounds:
                out = ("exc", "TooManyRounds", None)
        env.log("opt", oi, o["entry"], len(script.calls), out[0], out[1] if out[0] == "exc" else "")
        total += len(script.calls)
        if any(c.get("exc") for c in script.calls):
            crashed += 1
        if len(script.calls) > 1:
            env.probe("several_rounds")
        made = W.outcome(lambda: Optimizer(w.graph, w.demand, w.pax, w.net))
        other = made[1] if made[0] == "ok" else None
    if total > 1:
        env.nontrivial = True
