"""C08: evaluations have no memory."""
import numpy as np

from vsim import worlds as W, solver, sched
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C08"
RUNS = {"quick": 900, "thorough": 9000}
RULE = "distinct event logs of runs in which some frequencies were evaluated again after other operations"
STATE_MEASURE = "hash of (optimizer, how the argument was passed, previous operation, outcome kind)"
REAL = ["sidermit.optimization", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted (drives the shared objective like a solver)", "interruptions thrown at chosen lines"]
ASSUMPTIONS = ["the expected value of a query is what a process that never evaluated anything else computes"]
MUST_HIT = ["repeat", "inplace", "aborted", "nearby", "between_reports", "between_texts", "other_optimizer", "solver_probe", "failed_evaluation", "negative"]
SHRINK = [["steps"], ["world", "routes"], ["world", "demand", "cells"]]
EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "FloatingPointError": FloatingPointError}


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=3)
    xs = [W.draw_freq(rng, 5, 0.5, 90) for _ in range(rng.randint(2, 4))]
    # finite-difference neighbours and awkward ones
    for _ in range(rng.randint(1, 2)):
        b = list(rng.choice(xs))
        j = rng.randrange(len(b))
        b[j] = b[j] * (1 + rng.choice([1.5e-8, 1e-6, 1e-4, -1e-5]))
        xs.append(b)
    if rng.random() < 0.5:
        b = list(rng.choice(xs))
        b[rng.randrange(len(b))] = 0.0
        xs.append(b)
    if rng.random() < 0.2:
        xs.append([0.0])
    if rng.random() < 0.35:
        b = list(rng.choice(xs))
        b[rng.randrange(len(b))] = -rng.choice([1e-12, 1e-6, 0.01, 0.5, 7.0])    # solvers do step outside
        xs.append(b)
    if rng.random() < 0.3:
        b = list(rng.choice(xs))
        xs.append(b[::-1])
    fs = [None] + [W.draw_freq(rng, 4) for _ in range(rng.randint(0, 2))]
    steps = []
    for _ in range(rng.randint(8, 22)):
        k = rng.random()
        o = rng.randrange(len(fs))
        x = rng.randrange(len(xs))
        how = rng.choice(["list", "array", "inplace", "inplace", "listinplace"])
        if k < 0.42:
            steps.append(["vrc", o, x, how])
        elif k < 0.6:
            steps.append(["con", o, x, how])
        elif k < 0.72:
            steps.append(["abort", o, x, rng.choice(["vrc", "con"]), W.r3(rng.random()), rng.choice(list(EXCS))])
        elif k < 0.8:
            steps.append(["report", rng.choice(C.REPORTS)])
        elif k < 0.85:
            steps.append(["text", o, x, rng.choice(W.TEXTS)])
        elif k < 0.9:
            steps.append(["rebuild", o])
        else:
            steps.append(["solve", o, [rng.randrange(len(xs)) for _ in range(rng.randint(1, 4))], rng.random() < 0.7])
    return {"world": world, "xs": xs, "fs": fs, "steps": steps, "script": C.service_script(rng, 1)}


def ask(opt, what, x):
    if what == "vrc":
        return W.outcome(lambda: float(opt.VRC(x)))
    return W.outcome(lambda: [float(c) for c in opt.get_constrains(x)])


def same(a, b):
    return a == b or W.diff(a, b, "", 1e-13, 0) is None


def execute(plan, env):
    w = W.build(plan["world"])
    n = len(w.net.get_routes())

    def fdict(o):
        v = plan["fs"][o]
        return W.freqs(w, v) if v else None

    def vec(x):
        return W.vec_for(w, plan["xs"][x])
    expected = {}

    def expect(o, x, what, arr):
        """What a process doing nothing else computes."""
        key = (o, x, what, arr)
        if key not in expected:
            def one():
                v = W.build(plan["world"])
                opt = W.optimizer(v, fdict(o))
                a = vec(x)
                return ask(opt, what, np.array(a) if arr else a)
            expected[key] = C.alone(one)
        return expected[key]

    # ask for everything needed up front, before this process evaluates anything
    for st in plan["steps"]:
        if st[0] in ("vrc", "con"):
            expect(st[1], st[2], st[0], st[3] in ("array", "inplace"))
        elif st[0] == "solve":
            for x in st[2]:
                expect(st[1], x, "vrc", True)
                expect(st[1], x, "con", True)
    with solver.using(solver.Script(plan["script"], env)):
        ropt = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, 0)
    rexp = {}
    for st in plan["steps"]:
        if st[0] == "report":
            rexp[st[1]] = C.alone(lambda: C.report_obs(ropt, st[1], env, env.path("alone.csv")))
    texp = {}
    for st in plan["steps"]:
        if st[0] == "text":
            texp[tuple(st[1:])] = C.alone(lambda: W.outcome(lambda: W.text_obs(W.optimizer(w, fdict(st[1])), st[3], vec(st[2]))))
    opts = {}
    before = W.inputs_obs(w)
    work = np.zeros(n)
    lwork = [0.0] * n
    done = set()
    prev = "-"
    last_x = None
    for st in plan["steps"]:
        env.steps += 1
        op = st[0]
        if op in ("vrc", "con", "abort", "solve", "rebuild", "text"):
            o = st[1]
            if o not in opts or op == "rebuild":
                opts[o] = W.optimizer(w, fdict(o))
                if len(opts) > 1:
                    env.probe("other_optimizer")
        if op in ("vrc", "con"):
            _, o, x, how = st
            v = vec(x)
            if how == "list":
                arg = list(v)
            elif how == "array":
                arg = np.array(v)
            elif how == "inplace":
                work[:] = v
                arg = work
                env.probe("inplace")
            else:
                lwork[:] = v
                arg = lwork
            if min(v) < 0:
                env.probe("negative")
            got = ask(opts[o], op, arg)
            want = expect(o, x, op, how in ("array", "inplace"))
            env.log(op, o, x, how, got[0])
            env.state(o, how, prev, got[0])
            if got[0] == "exc":
                env.probe("failed_evaluation")
            if (o, x, op) in done:
                env.probe("repeat")
                env.nontrivial = True
            done.add((o, x, op))
            if last_x is not None and last_x != x and max(abs(a - b) / (abs(a) + 1e-9) for a, b in zip(vec(last_x), v)) < 1e-3:
                env.probe("nearby")
            last_x = x
            env.check(same(got, want), "evaluation-has-memory", lambda: "%s at %r gave %r here and %r in a process that asked nothing else (after %s)" % (
                op, v, got[1], want[1], prev))
            env.check(list(arg) == v, "argument-changed", lambda: "%s changed its argument from %r to %r" % (op, v, list(arg)))
        elif op == "abort":
            _, o, x, what, frac, exc = st
            v = vec(x)
            cnt = C.alone(lambda: sched.count(lambda: ask(opts[o], what, list(v)))[0])
            at = min(cnt - 1, int(frac * cnt))
            it, out = sched.interrupted(lambda: (opts[o].VRC if what == "vrc" else opts[o].get_constrains)(list(v)), at, EXCS[exc]("simulated"))
            if it.fired:
                env.fault("interrupt_%s" % exc)
                env.probe("aborted")
            env.log("abort", what, x, at, it.fired, out[0])
        elif op == "text":
            got = W.outcome(lambda: W.text_obs(opts[st[1]], st[3], vec(st[2])))
            env.probe("between_texts")
            env.log("text", st[3], got[0])
            env.check(same(got, texp[tuple(st[1:])]), "text-has-memory", lambda: "text %s changed: %s" % (st[3], W.diff(got, texp[tuple(st[1:])])))
        elif op == "report":
            got = C.report_obs(ropt, st[1], env, env.path("here.csv"))
            env.probe("between_reports")
            env.log("report", st[1])
            env.check(same(got, rexp[st[1]]), "report-has-memory", lambda: "report %s changed: %s" % (st[1], W.diff(got, rexp[st[1]])))
        elif op == "solve":
            _, o, ix, reuse = st
            rounds = [{"x": [30.0], "probes": [plan["xs"][x] for x in ix], "reuse": reuse, "fun": 1.0}]
            fdo = fdict(o)
            script = solver.Script(rounds, env)
            with solver.using(script):
                out = C.outcome_exc(lambda: Optimizer.external_optimization(w.graph, w.demand, w.pax, w.net, fdo, 0.01, 0))
            env.log("solve", o, ix, out[0])
            for p, x in zip(script.calls[0]["probes"] if script.calls else [], ix):
                wv, wc = expect(o, x, "vrc", True), expect(o, x, "con", True)
                env.check(p["same"], "argument-changed", "evaluating changed the solver's vector")
                if wv[0] == "ok" and wc[0] == "ok":
                    env.check(same(p["fun"], wv[1]) and same(p["con"], wc[1]), "evaluation-has-memory", lambda: "the solver saw cost %r at %r, a process that asked nothing else sees %r" % (
                        p["fun"], p["x"], wv[1]))
        else:
            env.log("rebuild", st[1])
        prev = op
        after = W.inputs_obs(w)
        env.check(after == before, "inputs-changed", lambda: "%r changed the inputs: %s" % (st, W.diff(before, after)))
