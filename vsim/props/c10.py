"""C10: interruptions leave the inputs usable."""
from vsim import worlds as W, solver, sched
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C10"
RUNS = {"quick": 900, "thorough": 9000}
RULE = "distinct event logs of runs in which at least one interruption hit inside the package"
STATE_MEASURE = "hash of (operation, function interrupted, exception)"
REAL = ["sidermit.optimization", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted", "interruptions thrown at chosen lines of the package"]
ASSUMPTIONS = ["interruptions arrive between lines of the package's own code or out of the solver"]
MUST_HIT = ["interrupt_KeyboardInterrupt", "interrupt_MemoryError", "solver_raises_KeyboardInterrupt", "construct", "vrc", "optimise", "report", "text", "holder_checked", "repeatedly", "cold"]
SHRINK = [["steps"], ["steps", "*", 2], ["world", "routes"], ["world", "demand", "cells"]]
EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError}


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 6), (2, 3)), extra=2)
    steps = []
    # cold: the interrupted operation is the first to use the objects
    cold = rng.random() < 0.3
    for _ in range(rng.randint(1, 4) if not cold else 1):
        op = rng.choice(["construct", "vrc", "con", "optimise", "optimise", "report", "report", "holder_vrc", "text"] if not cold else ["construct", "vrc", "con", "optimise"])
        arg = rng.choice(C.REPORTS[:6]) if op == "report" else W.draw_freq(rng, 4, 0.5, 80)
        if op == "text":
            arg = [arg, rng.choice(W.TEXTS)]
        hits = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            # early, late, anywhere
            fr = rng.choice([rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])
            # ... or where a line is reached for the first time
            hits.append([W.r3(fr), rng.choice(list(EXCS)), rng.random() < (0.8 if cold else 0.4)])
        st = [op, arg, hits]
        if op == "optimise":
            rounds = C.service_script(rng, rng.randint(1, 3))
            sx = None
            if rng.random() < 0.3:
                sx = [rng.randrange(len(rounds)), rng.choice(["KeyboardInterrupt", "SolverCrash", "MemoryError"])]
            st += [rounds, sx]
        steps.append(st)
    return {"world": world, "steps": steps, "script": C.service_script(rng, 2), "cold": cold}


def execute(plan, env):
    w = W.build(plan["world"])

    def run(op, arg, extra, w, holder):
        """One operation; its outcome as plain data."""
        if op == "construct":
            opt = W.optimizer(w, W.freqs(w, arg))
            x = W.vec_for(w, arg)
            return [float(opt.VRC(x)), [float(c) for c in opt.get_constrains(x)]]
        if op == "text":
            return W.text_obs(holder, arg[1], arg[0])
        if op == "vrc":
            return float(W.optimizer(w).VRC(W.vec_for(w, arg)))
        if op == "holder_vrc":
            return float(holder.VRC(W.vec_for(w, arg)))
        if op == "con":
            return [float(c) for c in W.optimizer(w).get_constrains(W.vec_for(w, arg))]
        if op == "report":
            return C.report_obs(holder, arg, env, env.path("rep.csv"))
        with solver.using(solver.Script(extra, env)):
            opt = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, len(extra) - 1)
        got.append(opt)
        return opt

    def post(val):
        return C.res_obs(val.get_optimization_value()) if isinstance(val, Optimizer) else val

    got = []
    holder = hv = None
    reports = []
    if plan.get("cold"):
        env.probe("cold")
        before = C.alone(lambda: W.inputs_obs(w))
    else:
        with solver.using(solver.Script(plan["script"], env)):
            holder = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, len(plan["script"]) - 1)
        before = W.inputs_obs(w)
        hv = C.res_obs(holder.get_optimization_value())
        reports = C.alone(lambda: [C.report_obs(holder, k, env, env.path("a.csv")) for k in ("net", "all")])

    def look():
        return W.inputs_obs(w) if holder else C.alone(lambda: W.inputs_obs(w))

    def reference(op, arg, extra):
        def go():
            first = []
            n, out = sched.count(lambda: run(op, arg, extra, w, holder), False, first)
            return n, first, (("ok", post(out[1])) if out[0] == "ok" else ("exc", type(out[1]).__name__))
        return C.alone(go)

    refs = [reference(st[0], st[1], st[3] if st[0] == "optimise" else None) for st in plan["steps"]]
    for st, (n, first, want) in zip(plan["steps"], refs):
        op, arg, hits = st[0], st[1], st[2]
        extra = st[3] if op == "optimise" else None
        env.probe({"holder_vrc": "vrc"}.get(op, op))
        if len(hits) > 1:
            env.probe("repeatedly")
        hits = [["line"] + h for h in hits]
        if op == "optimise" and st[4] and st[4][0] < len(extra):
            hits.append(["solver", st[4][0], st[4][1]])
        for h in hits:
            env.steps += 1
            got.clear()
            if h[0] == "line":
                at = first[min(len(first) - 1, int(h[1] * len(first)))] if h[3] and first else min(n - 1, int(h[1] * n))
                exc = EXCS[h[2]]("simulated")
                it, out = sched.interrupted(lambda: run(op, arg, extra, w, holder), at, exc)
                if it.fired is None:
                    continue
                env.fault("interrupt_%s" % h[2])
                where = it.fired[0]
            else:
                bad = [dict(r) for r in extra]
                bad[h[1]]["exc"] = h[2]
                out = C.outcome_exc(lambda: run(op, arg, bad, w, holder))
                where = "solver"
            env.log("interrupt", op, h, where, out[0])
            env.state(op, where, h[2])
            env.nontrivial = True
            env.check(out[0] == "exc", "interruption-swallowed", lambda: "%s was interrupted by %s in %s and went on as if nothing happened" % (op, h[2], where))
            env.check(not got, "published-after-interruption", lambda: "%s interrupted in %s published a result" % (op, where))
            after = look()
            env.check(after == before, "inputs-changed", lambda: "%s interrupted by %s in %s changed the inputs: %s" % (op, h[2], where, W.diff(before, after)))
            env.check(holder is None or C.res_obs(holder.get_optimization_value()) == hv, "held-result-changed", lambda: "the result held by an optimizer changed after %s was interrupted in %s" % (op, where))
        # afterwards everything works as if never interrupted
        env.fs.disarm()
        out = W.outcome(lambda: post(run(op, arg, extra, w, holder)))
        env.check(W.diff(list(out), list(want), "", 1e-12, 0) is None, "rerun-differs", lambda: "%s done again after interruptions %r: %s" % (op, hits, W.diff(list(out), list(want), "", 1e-12, 0)))
        after = look()
        env.check(after == before, "inputs-changed", lambda: "%s changed the inputs: %s" % (op, W.diff(before, after)))
    if plan.get("cold"):
        after = W.inputs_obs(w)
        env.check(after == before, "inputs-changed", lambda: "interrupted operations changed the inputs: %s" % W.diff(before, after))
    for k, want in zip(("net", "all"), reports):
        g = C.report_obs(holder, k)
        env.probe("holder_checked")
        env.check(W.diff(g, want, "", 1e-12, 0) is None, "held-report-changed", lambda: "the %s report of an optimizer that held a result: %s" % (k, W.diff(g, want)))
