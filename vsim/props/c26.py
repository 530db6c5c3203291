"""C26: route-choice questions have no memory."""
from collections import defaultdict

from vsim import worlds as W, sched
from vsim.props import common as C
from sidermit.city import Demand
from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode, ExtendedEdge

ID = "C26"
RUNS = {"quick": 2000, "thorough": 16000}
RULE = "distinct event logs of runs with two or more questions to one extended graph, at least one of them answered"
STATE_MEASURE = "hash of (kind of question, outcome, kinds asked of the same objects before, interrupted or preempted before)"
REAL = ["sidermit.optimization.preoptimization (extended graph, hyperpath, assignment)", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["thread scheduling and interruptions - simulated"]
ASSUMPTIONS = ["nodes and edges of an extended graph belong to it; the caller does not change them"]
MUST_HIT = ["asked_again", "unserved", "two_passengers", "two_frequencies", "interrupted", "preemption", "spoiled", "kept", "pair", "tree", "all", "flows", "text", "validate", "switched_off", "burst"]
SHRINK = [["ops"], ["threads"], ["threads", "*"], ["switches"], ["spots"], ["world", "routes"]]
EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
    world["demand"] = {"kind": "zero", "cells": []}
    nn = 1 + 2 * world["city"]["n"]
    fs = [W.draw_freq(rng, 5, 0.3, 80) for _ in range(rng.choice([1, 2, 2]))]
    if rng.random() < 0.35:
        fs[-1][rng.randrange(5)] = 0.0
    if len(fs) == 2 and rng.random() < 0.3:
        fs[1] = list(fs[0])
        fs[1][rng.randrange(5)] *= rng.choice([1.0001, 1.3])
    paxs = [W.draw_pax(rng) for _ in range(rng.choice([1, 2, 2]))]
    hps = [[rng.randrange(len(fs)), rng.randrange(len(paxs))] for _ in range(rng.randint(1, 3))]
    # few pairs, so that questions come back
    pairs = []
    for _ in range(rng.randint(2, 4)):
        o, d = rng.randrange(nn), rng.randrange(nn)
        if o != d:
            pairs.append([o, d])
    pairs = pairs or [[0, 1]]
    mats = [[p + [W.r3(rng.choice([rng.uniform(0.01, 3), rng.uniform(1, 900)]))] for p in pairs if rng.random() < 0.7] for _ in range(2)]

    def question():
        k, h = rng.random(), rng.randrange(len(hps))
        if k < 0.34:
            return ["pair", h] + rng.choice(pairs)
        if k < 0.46:
            return ["tree", h] + rng.choice(pairs)
        if k < 0.62:
            return ["all", h, rng.randrange(2)]
        if k < 0.76:
            return ["flows", h, rng.randrange(2), W.draw_freq(rng, 3, 0.5, 60)]
        if k < 0.84:
            return ["text", h] + rng.choice(pairs)
        if k < 0.94:
            return ["validate", h, rng.randrange(2)]
        return ["graph", h]
    plan = {"world": world, "fs": fs, "paxs": paxs, "hps": hps, "mats": mats}
    kind = rng.random()
    if kind < 0.3:
        # many callers, each of which runs to its end at some line of the first one
        first = question()
        while first[0] == "graph":
            first = question()
        some = [question() for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.6:
            for q in some:
                q[1] = first[1]
        plan["threads"] = [[first]] + [[rng.choice(some)] for _ in range(rng.choice([4, 8, 12]))]
        k = len(plan["threads"]) - 1
        at = i * 0.6180339887 if rng.random() < 0.8 else rng.random() / 3
        plan["spots"] = [round((at + j / k) % 1, 5) for j in range(k)] if rng.random() < 0.7 else [round(1 + rng.random(), 5) for j in range(k)]
        plan["switches"], plan["ops"] = [], []
    elif kind < 0.5:
        plan["threads"] = [[question() for _ in range(rng.choice([1, 2, 2]))] for _ in range(2)]
        plan["switches"] = sorted([W.r3(rng.random()), 0] for _ in range(rng.choice([2, 6, 20, 60])))
        plan["ops"] = []
    else:
        plan["ops"] = []
        for _ in range(rng.randint(3, 7)):
            op = {"q": question()}
            if rng.random() < 0.2:
                op["cut"] = [W.r3(rng.random()), rng.choice(sorted(EXCS))]
            elif rng.random() < 0.2:
                op["spoil"] = True
            plan["ops"].append(op)
    return plan


def key(v):
    if isinstance(v, CityNode):
        return "city %s" % v.graph_node.id
    if isinstance(v, StopNode):
        return "stop %s at %s" % (v.mode.name, v.city_node.graph_node.id)
    if isinstance(v, RouteNode):
        return "route %s %s at %s (%s)" % (v.route.id, v.direction, v.stop_node.city_node.graph_node.id, v.id)
    if isinstance(v, ExtendedEdge):
        return "%s -> %s %s %r %r" % (key(v.nodei), key(v.nodej), v.type, v.t, v.f)
    return v


def canon(v):
    """Plain data, in the order given; keys without value (made by looking) dropped."""
    if isinstance(v, dict):
        return [[key(k), canon(a)] for k, a in v.items() if not (isinstance(a, (dict, list)) and not len(a))]
    if isinstance(v, (list, tuple)):
        return [canon(a) for a in v]
    v = key(v)
    return v if isinstance(v, (str, bool, int)) or v is None else float(v)


class Asked:
    """A network with its extended graphs and hyperpath objects."""

    def __init__(self, plan, only=None):
        self.plan = plan
        self.w = W.build(plan["world"])
        want = None if only is None else plan["hps"][only][0]
        self.graphs = {}
        for i, f in enumerate(plan["fs"]):
            if want is None or i == want:
                self.graphs[i] = ExtendedGraph(self.w.graph, self.w.net.get_routes(), self.w.pax.pt, W.freqs(self.w, f))
        self.paxs = [W.build_pax(p) for p in plan["paxs"]]
        self.hps = {i: Hyperpath(self.graphs[g], self.paxs[p]) for i, (g, p) in enumerate(plan["hps"]) if only is None or i == only}
        self.mats = []
        for cells in plan["mats"]:
            d = Demand(self.w.graph)
            for o, de, v in cells:
                d.change_vij(o, de, v)
            self.mats.append(d)

    def node(self, h, nid):
        g = self.graphs[self.plan["hps"][h][0]]
        return next(c for c in g.get_extended_graph_nodes() if str(c.graph_node.id) == str(nid))

    def ask(self, q):
        h = self.hps[q[1]]
        if q[0] == "pair":
            return h.get_hyperpath_OD(self.node(q[1], q[2]), self.node(q[1], q[3]))
        if q[0] == "tree":
            return h.build_hyperpath_graph(self.node(q[1], q[2]), self.node(q[1], q[3]))
        if q[0] == "all":
            return h.get_all_hyperpaths(self.mats[q[2]].get_matrix())
        if q[0] == "validate":
            return h.network_validator(self.mats[q[2]].get_matrix())
        if q[0] == "flows":
            hyper, labels, succ, _, vij = h.get_all_hyperpaths(self.mats[q[2]].get_matrix())
            p = self.paxs[self.plan["hps"][q[1]][1]]
            asg = Assignment.get_assignment(hyper, labels, self.w.graph.get_parameters()[3], p.va, p.pa, p.pv)
            return asg, Assignment.get_alighting_and_boarding(vij, hyper, succ, asg, W.freqs(self.w, q[3]))
        if q[0] == "text":
            paths, label, succ, freq = h.get_hyperpath_OD(self.node(q[1], q[2]), self.node(q[1], q[3]))
            return [h.string_hyperpaths_OD(paths, label), h.string_hyperpath_graph(succ, label, freq)]
        g = self.graphs[self.plan["hps"][q[1]][0]]
        return [str(g), g.get_extended_graph_nodes(), g.get_extended_graph_edges()]

    def obs(self):
        return [[canon(g.get_extended_graph_nodes()), canon(g.get_extended_graph_edges())] for g in self.graphs.values()] + [
            [W.pax_obs(p) for p in self.paxs], [canon(m.get_matrix()) for m in self.mats], W.net_obs(self.w.net)]


def told(out):
    return ("ok", canon(out[1])) if out[0] == "ok" else tuple(str(a) for a in out[:2])


def fresh(env, plan, q):
    """The question as the first ever asked, of objects of its own."""
    a = Asked(plan, q[1])
    first = []
    n, out = sched.count(lambda: W.outcome(lambda: a.ask(q)), False, first)
    return n, told(out[1]), first


def execute(plan, env):
    z = C.Zygote(env)
    want = {}
    for q in [op["q"] for op in plan["ops"]] + [q for t in plan.get("threads", []) for q in t]:
        if repr(q) not in want:
            want[repr(q)] = z.call(fresh, plan, q)
    z.close()
    a = Asked(plan)
    before = a.obs()
    if len({p for _, p in plan["hps"]}) > 1:
        env.probe("two_passengers")
    if len({g for g, _ in plan["hps"]}) > 1:
        env.probe("two_frequencies")
    if any(v == 0 for f in plan["fs"] for v in f):
        env.probe("switched_off")

    def judge(q, got, tag):
        e = want[repr(q)][1]
        env.steps += 1
        d = W.diff(list(got), list(e), "", 1e-12, 0)
        env.check(d is None, "remembers", lambda: "%s %r: answers %s, asked first it answers %s (%s)" % (tag, q, str(got)[:200], str(e)[:200], d))

    kept, asked, past = [], set(), []
    cut = False
    for i, op in enumerate(plan["ops"]):
        q = op["q"]
        env.probe(q[0])
        if op.get("cut"):
            at = int(op["cut"][0] * want[repr(q)][0])
            it, out = sched.interrupted(lambda: a.ask(q), at, EXCS[op["cut"][1]]("injected"))
            if it.fired:
                env.fault("interrupt_%s" % op["cut"][1])
                env.probe("interrupted")
                env.log("cut", i, q[0], at, it.fired[0])
                cut = True
                env.check(out[0] == "exc" and type(out[1]) is EXCS[op["cut"][1]], "interrupt-swallowed", lambda: "question %d %r interrupted in %s: %s" % (i, q, it.fired[0], str(out)[:200]))
                continue
            out = ("ok", out[1]) if out[0] == "ok" else W.outcome(lambda: a.ask(q))
        else:
            out = W.outcome(lambda: a.ask(q))
        got = told(out)
        judge(q, got, "question %d" % i)
        if repr(q) in asked:
            env.probe("asked_again")
        asked.add(repr(q))
        if got[0] != "ok":
            env.probe("unserved")
        elif op.get("spoil") and q[0] in ("pair", "all"):
            # what the caller does with an answer is its own business
            env.probe("spoiled")
            for part in out[1]:
                if hasattr(part, "clear"):
                    for v in list(part.values()):
                        if hasattr(v, "clear"):
                            v.clear()
                    part.clear()
        elif q[0] not in ("graph", ):
            kept.append((i, q, out[1], got))
        env.log("ask", i, q[0], got[0])
        env.state(q[0], got[0], tuple(sorted(set(past)))[:4], cut)
        past.append(q[0])
        if i:
            env.nontrivial = True
    for i, q, ans, got in kept:
        env.probe("kept")
        env.check(W.diff(list(told(("ok", ans))), list(got), "", 0, 0) is None, "answer-changed", lambda: "the answer to question %d %r changed after it was given" % (i, q))
    if plan.get("threads"):
        res = [[] for _ in plan["threads"]]

        def body(k):
            def run():
                for q in plan["threads"][k]:
                    res[k].append(W.outcome(lambda: a.ask(q)))
            return run
        total = sum(want[repr(q)][0] for t in plan["threads"] for q in t)
        spots = {}
        if plan.get("spots") and plan["threads"][0]:
            # at the first visit of one of its lines or, from 1 on, at any of its steps
            n, _, first = want[repr(plan["threads"][0][0])]
            for u in plan["spots"]:
                spots[0, first[int(u * len(first)) % len(first)] if u < 1 else int((u - 1) * n)] = 0
            env.probe("burst")
        sc = sched.Scheduler([body(k) for k in range(len(res))], [[int(u * total), t] for u, t in plan["switches"]], env, spots)
        for r in sc.run():
            if r[0] == "exc":
                raise r[1]
        for s in sc.trace:
            env.log("switch", *s)
            env.state("switch", s[2])
        for k, t in enumerate(plan["threads"]):
            for q, out in zip(t, res[k]):
                env.probe(q[0])
                got = told(out)
                if got[0] != "ok":
                    env.probe("unserved")
                env.log("ask", k, q[0], got[0])
                judge(q, got, "thread %d" % k)
        env.nontrivial = bool(sc.trace)
        if sc.trace:
            env.probe("preemption")
    after = a.obs()
    env.check(W.diff(before, after, "", 0, 0) is None, "inputs-changed", lambda: "asking changed the extended graph, the passengers, a matrix or the network: %s" % W.diff(before, after, "", 0, 0))
