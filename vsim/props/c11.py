"""C11: readers of shared objects on several threads."""
from vsim import worlds as W, sched, solver, fsim
from vsim import session as S
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C11"
RUNS = {"quick": 950, "thorough": 8000}
RULE = "distinct event logs (schedules) of runs in which at least one thread was preempted inside the package"
STATE_MEASURE = "hash of (function preempted, operations in progress on the two threads)"
REAL = ["the whole package except plotting"]
STUB = ["thread scheduling - simulated, one line or one bytecode at a time", "scipy.optimize.minimize - scripted per thread", "raw file I/O - simulated storage"]
ASSUMPTIONS = ["a bytecode of the package is atomic (in the coarser runs, a line)", "no thread edits the shared objects", "plotting, which shares one drawing surface, is not among the operations"]
MUST_HIT = ["preemption", "vrc", "build", "optimise", "report", "text", "export", "same_optimizer", "many_switches", "between_bytecodes", "cold", "burst"]
SHRINK = [["threads"], ["threads", "*"], ["switches"], ["spots"], ["world", "routes"], ["world", "demand", "cells"]]


def draw_op(rng, cold=False):
    if not cold and rng.random() < 0.12:
        return ["text", rng.randrange(2), W.draw_freq(rng, 4, 0.5, 80), rng.choice(W.TEXTS)]
    k = rng.random() if not cold else rng.choice([rng.uniform(0.4, 0.75), rng.uniform(0.4, 0.75), 0.95])
    if k < 0.4:
        return [rng.choice(["vrc", "vrc", "con"]), rng.randrange(2), W.draw_freq(rng, 4, 0.5, 80)]
    if k < 0.6:
        return ["build", W.draw_freq(rng, 4), W.draw_freq(rng, 4, 0.5, 80)]
    if k < 0.75:
        sc = C.draw_script(rng, rng.randint(1, 2), 0.85)
        return ["optimise", sc, rng.choice([0, 1])]
    if k < 0.9:
        return ["report", rng.choice(C.REPORTS)]
    return ["export", rng.choice(["city", "citytext", "od", "routes", "read"])]


def draw_spots(rng, threads, k):
    out = []
    for _ in range(k):
        t = rng.randrange(len(threads)) if rng.random() < 0.5 else 0
        out.append([t, rng.randrange(len(threads[t])), W.r3(rng.random()), rng.randrange(4)])
    return out


def burst(rng, i):
    """Many callers, each of which runs to its end at some line of the first one."""
    world = W.draw_world(rng, weights=((1, 6), (2, 1)), extra=1)
    kind = rng.choice(["build"] * 8 + ["vrc"] * 5 + ["con", "optimise", "optimise", "report", "report", "export", "text"])
    cold = kind in ("build", "optimise", "export")

    def one():
        while True:
            op = draw_op(rng, cold)
            if op[0] == kind:
                return op
    some = [one() for _ in range(rng.choice([1, 2]))]
    t = [[one()]] + [[rng.choice(some)] for _ in range(rng.choice([6, 10, 14]))]
    k, style = len(t) - 1, rng.random()
    if style < 0.7:
        # spread evenly over the lines from run to run
        at = i * 0.6180339887
        us = [(at + j / k) % 1 for j in range(k)]
    elif style < 0.85:
        at = rng.random()
        us = [min(0.999, at + j * 0.003) for j in range(k)]
    else:
        us = [1 + rng.random() for _ in range(k)]
    return {"world": world, "threads": t, "switches": [], "spots": [[0, 0, round(u, 5), 0] for u in us], "burst": True, "cold": cold,
            "script": C.service_script(rng, 1) if not cold else [], "fs": [W.draw_freq(rng, 3), None] if not cold else [], "knobs": C.draw_knobs(rng)}


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
    if rng.random() < 0.25:
        # nothing has used the shared objects before: what is filled on first use is filled here
        t = [[draw_op(rng, True)] for _ in range(rng.choice([2, 2, 3]))]
        return {"world": world, "threads": t, "switches": sorted([rng.random() * 0.7, rng.randrange(2)] for _ in range(rng.choice([0, 0, 1, 4]))), "cold": True,
                "spots": draw_spots(rng, t, rng.choice([1, 1, 2, 3, 6])), "fine": rng.random() < 0.15, "script": [], "fs": [], "knobs": C.draw_knobs(rng)}
    if rng.random() < 0.5:
        return burst(rng, i)
    nt = rng.choice([2, 2, 2, 3, 4])
    threads = [[draw_op(rng) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
    if rng.random() < 0.4:
        # the same operation at different frequencies on one optimizer
        kind = rng.choice(["vrc", "con", "build"])
        for t in threads:
            t[0] = [kind, 0, W.draw_freq(rng, 4, 0.5, 80)] if kind != "build" else ["build", W.draw_freq(rng, 4), W.draw_freq(rng, 4, 0.5, 80)]
    if rng.random() < 0.3:
        # a duel: one operation each, one preempted by all of the other
        k = rng.choice(["export", "export", "vrc", "con", "report", "mixed"])
        pick = {"export": lambda: ["export", e], "vrc": lambda: ["vrc", o, W.draw_freq(rng, 4, 0.5, 80)], "con": lambda: ["con", o, W.draw_freq(rng, 4, 0.5, 80)],
                "report": lambda: ["report", rng.choice(C.REPORTS)], "mixed": lambda: draw_op(rng)}[k]
        e, o = rng.choice(["city", "citytext", "citytext", "od", "routes"]), rng.randrange(2)
        t = [[pick()], [pick()]]
        byline = rng.random() < 0.6
        return {"world": world, "threads": t, "switches": [[rng.random() * 0.5, 0] for _ in range(rng.choice([1, 1, 2, 4]))] if not byline else [],
                "spots": draw_spots(rng, t, rng.choice([1, 1, 2, 4])) if byline else [], "fine": rng.random() < 0.3,
                "script": C.service_script(rng, 1), "fs": [W.draw_freq(rng, 3), None], "knobs": C.draw_knobs(rng)}
    sw = [[W.r3(rng.random()), rng.randrange(4)] for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 80]))]
    if rng.random() < 0.35:
        at = rng.random()
        sw += [[at + j * 1e-5 * rng.choice([1, 2, 7, 30]), j] for j in range(rng.choice([10, 60, 150]))]
    return {"world": world, "threads": threads, "switches": sorted(sw), "spots": draw_spots(rng, threads, rng.choice([0, 0, 1, 3, 10, 40])), "script": C.service_script(rng, 1), "fs": [W.draw_freq(rng, 3), None], "knobs": C.draw_knobs(rng)}


class Shared:
    def __init__(self, plan, env):
        self.env = env
        self.w = W.build(plan["world"])
        if plan.get("cold"):
            env.probe("cold")
            return
        with solver.using(solver.Script(plan["script"], env)):
            self.holder = Optimizer.network_optimization(self.w.graph, self.w.demand, self.w.pax, self.w.net, None, 0.01, 0)
        self.opts = [W.optimizer(self.w, W.freqs(self.w, f) if f else None) for f in plan["fs"]]


def do(sh, env, op, tag):
    w = sh.w
    if op[0] in ("vrc", "con"):
        x = W.vec_for(w, op[2])
        if op[0] == "vrc":
            return float(sh.opts[op[1]].VRC(x))
        return [float(c) for c in sh.opts[op[1]].get_constrains(x)]
    if op[0] == "text":
        return W.text_obs(sh.opts[op[1]], op[3], op[2])
    if op[0] == "build":
        o = W.optimizer(w, W.freqs(w, op[1]))
        x = W.vec_for(w, op[2])
        return [float(o.VRC(x)), [float(c) for c in o.get_constrains(x)], S.Session.choice_obs(o)]
    if op[0] == "optimise":
        with solver.using(solver.Script(op[1], env)) as s:
            h = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, op[2])
        return [C.res_obs(h.get_optimization_value()), [c.get("fun") for c in s.calls]]
    if op[0] == "report":
        return C.report_obs(sh.holder, op[1], env, env.path("%s-rep.csv" % tag))[1]
    if op[1] == "citytext":
        return w.graph.export_graph()
    if op[1] == "read":
        return [W.city_obs(w.graph)["nodes"], sorted(W.demand_obs(w.demand)["cells"].items()), [W.route_obs(r) for r in w.net.get_routes()]]
    p = env.path("%s-exp" % tag)
    {"city": w.graph.graph_to_pajek_file, "od": w.demand.matrix_to_file, "routes": w.net.routes_to_file}[op[1]](p)
    return fsim.real_bytes(p).decode("utf-8")


def alone(env, plan, op):
    env.fs.configure(plan["knobs"])
    sh = Shared(plan, env)
    first = []
    n, out = sched.count(lambda: W.outcome(lambda: do(sh, env, op, "alone")), plan.get("fine", False), first)
    return n, first, out


def inputs_before(env, plan):
    return dict(W.inputs_obs(W.build(plan["world"])), ids=None)


def execute(plan, env):
    env.fs.configure(plan["knobs"])
    z = C.Zygote(env)
    known = {}
    for t in plan["threads"]:
        for op in t:
            if repr(op) not in known:
                known[repr(op)] = z.call(alone, plan, op)
    want = [[known[repr(op)] for op in t] for t in plan["threads"]]
    if plan.get("burst"):
        env.probe("burst")
    before = z.call(inputs_before, plan)
    z.close()
    total = sum(a[0] for t in want for a in t)
    spots = {}
    for k, j, u, t in plan.get("spots", []):
        # where the operation reaches one of its lines for the first time
        if k < len(want) and j < len(want[k]) and want[k][j][1]:
            first = want[k][j][1]
            # (or, from 1 on, at any of its steps)
            at = first[int(u * len(first)) % len(first)] if u < 1 else int((u - 1) * want[k][j][0])
            spots[k, sum(a[0] for a in want[k][:j]) + at] = t
    sh = Shared(plan, env)
    if not plan.get("cold"):
        before = W.inputs_obs(sh.w)     # looking may fill what is filled on first use
    got = [[] for _ in plan["threads"]]
    cur = [None] * len(got)

    def body(k):
        def run():
            for j, op in enumerate(plan["threads"][k]):
                cur[k] = op[0]
                got[k].append(W.outcome(lambda: do(sh, env, op, "t%d-%d" % (k, j))))
            cur[k] = "done"
        return run
    sc = sched.Scheduler([body(k) for k in range(len(got))], [[int(f * total), t] for f, t in plan["switches"]], env, spots)
    res = sc.run(plan.get("fine", False))
    if plan.get("fine"):
        env.probe("between_bytecodes")
    for r in res:
        if r[0] == "exc":
            raise r[1]
    env.steps += sc.step
    env.nontrivial = bool(sc.trace)
    if len(sc.trace) > 15:
        env.probe("many_switches")
    used = {}
    for k, t in enumerate(plan["threads"]):
        for op in t:
            env.probe({"con": "vrc"}.get(op[0], op[0]))
            if op[0] in ("vrc", "con"):
                used.setdefault(op[1], set()).add(k)
    if any(len(v) > 1 for v in used.values()):
        env.probe("same_optimizer")
    for a in sc.trace:
        env.log("switch", *a)
        env.state(a[2], [op[0] for op in plan["threads"][a[0]]][:1], [op[0] for op in plan["threads"][a[1]]][:1])
    for k, t in enumerate(plan["threads"]):
        for j, op in enumerate(t):
            _, _, out = want[k][j]
            e = out[1] if out[0] == "ok" else out
            d = W.diff(list(got[k][j]), list(e), "", 1e-12, 0)
            env.log("result", k, j, op[0], got[k][j][0])
            env.check(d is None, "concurrent-result", lambda: "thread %d, %r: with the other threads %s, alone %s (%s)" % (k, op[:2], str(got[k][j])[:300], str(e)[:300], d))
    after = W.inputs_obs(sh.w)
    if plan.get("cold"):
        after["ids"] = None
    env.check(after == before, "inputs-changed", lambda: "the readers changed the shared inputs: %s" % W.diff(before, after))
