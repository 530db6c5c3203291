"""A planning session: a list of JSON operations over one city, demand,
passenger profile, mode list and network, each with a plain-data outcome."""
from collections import defaultdict

from vsim import worlds as W, solver, sched, fsim
from vsim.props import common as C
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import TransportMode, Passenger, Route, RouteType, TransportNetwork
from sidermit.optimization.optimizer import Optimizer

EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
MODE_OK = {"bya": [0, 1], "co": [0, 12.5, 70], "c1": [0, 0.25], "c2": [0, 100, 900], "v": [12, 33.3, 60], "t": [0, 1.7, 4],
           "fmax": [10, 130], "kmax": [50, 900], "theta": [0.1, 0.6, 1], "tat": [0, 0.5, 2], "d": [1, 2, 3, 4], "fini": [3.5, 20, 60]}
MODE_BAD = {"bya": [2, -1, None], "co": [-1, None], "c1": [-0.1, None], "c2": [-5, None], "v": [0, -3, None], "t": [-1, None], "fmax": [-2, None],
            "kmax": [-1, None], "theta": [1.2, -0.1, None], "tat": [-1, None], "d": [-1, None], "fini": [-4, None], "name": [None]}
PAX_OK = {"va": [2.5, 4, 6], "pv": [0.9, 3], "pw": [2, 7], "pa": [3, 9], "pt": [0, 6, 20], "spv": [1.1, 4], "spw": [2, 6], "spa": [3, 9], "spt": [0, 10]}
PAX_BAD = {"va": [0, -1, None], "pv": [-1, None], "pw": [-1, None], "pa": [-2, None], "pt": [-1, None], "spv": [-1, None], "spw": [-3, None],
           "spa": [-1, None], "spt": [-1, None]}


# ------------------------------------------------------------------ drawing
def draw_edit(rng, n, nm):
    k = rng.random()
    if k < 0.25:
        return ["od", rng.randint(0, 2 * n), rng.randint(1, 2 * n), W.r3(rng.choice([0, rng.uniform(1, 60), rng.uniform(60, 3000)]))]
    if k < 0.32:
        return rng.choice([["od", rng.randint(0, 2 * n), rng.randint(1, 2 * n), -W.r3(rng.uniform(0.1, 50))],
                           ["odbad", rng.choice([999, -1]), rng.randint(0, 2 * n), 5.0], ["odbad", rng.randint(0, 2 * n), 777, 5.0]])
    if k < 0.47:
        e = rng.choice(W.draw_routes(rng, n, nm, 2))
        return ["addfam", e]
    if k < 0.52:
        return ["addbad", rng.choice(["street", "dup", "mode", "none"]), rng.randrange(nm)]
    if k < 0.62:
        return ["rmroute", rng.randint(0, 30)]
    if k < 0.64:
        return ["rmroute", -1]
    if k < 0.69:
        return ["readd", rng.randint(0, 5)]
    if k < 0.85:
        good = rng.random() < 0.65
        t = MODE_OK if good else MODE_BAD
        f = rng.choice(sorted(t))
        return ["mode", rng.randrange(nm), f, rng.choice(t[f])]
    good = rng.random() < 0.65
    t = PAX_OK if good else PAX_BAD
    f = rng.choice(sorted(t))
    return ["pax", f, rng.choice(t[f])]


def draw_use(rng, storage=False):
    k = rng.random()
    if k < 0.28:
        return ["build", W.draw_freq(rng, 4) if rng.random() < 0.5 else None, W.draw_freq(rng, 4, 0.5, 80)]
    if k < 0.45:
        return ["eval", W.draw_freq(rng, 4, 0.5, 80)]
    if k < 0.65:
        return ["optimise", C.draw_script(rng, None, 0.75), rng.choice([0, 1, 2, 3])]
    if k < 0.79:
        return ["report", rng.choice(C.REPORTS)]
    if k < 0.84:
        return ["text", rng.choice(W.TEXTS), W.draw_freq(rng, 4, 0.5, 80)]
    return ["export", rng.choice(["city", "citytext", "od", "routes"])]


class Session:
    def __init__(self, world, env, dirname):
        self.world = world
        self.env = env
        self.dir = dirname
        self.opt = None
        self.holder = None
        self.count = 0
        self.open(world)

    def open(self, world):
        w = W.build(world)
        self.world = world
        self.graph, self.demand, self.pax, self.modes, self.net = w.graph, w.demand, w.pax, w.modes, w.net
        self.gone = []
        self.n = world["city"]["n"]

    # the shape W.optimizer and friends expect
    @property
    def w(self):
        return self

    def path(self, name):
        import os
        os.makedirs(self.env.path(self.dir), exist_ok=True)
        return self.env.path("%s/%s" % (self.dir, name))

    def freqs(self, vals):
        return W.freqs(self, vals)

    def step(self, op):
        """Outcome of one operation as plain data."""
        try:
            return ["ok", self.do(op)]
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, AssertionError):
                raise
            return ["exc", type(e).__name__]

    def do(self, op):
        k = op[0]
        ids = [int(x.id) for x in self.graph.get_nodes()]
        if k == "od":
            o = ids[op[1] % len(ids)]
            d = ids[(op[1] + op[2]) % len(ids)]
            if o == d:
                d = ids[(op[1] + 1) % len(ids)]
            self.demand.change_vij(o, d, op[3])
            return [o, d, float(self.demand.get_matrix()[o][d]), float(self.demand.get_total_trips())]
        if k == "odbad":
            self.demand.change_vij(op[1], op[2], op[3])
            return "accepted"
        if k == "odparam":
            self.demand = Demand.build_from_parameters(self.graph, *op[1])
            return sorted(W.demand_obs(self.demand)["cells"].items())
        if k == "addfam":
            out = []
            for r in W.family_routes(self.net, self.graph, op[1], self.modes):
                self.net.add_route(r)
                out.append(r.id)
            return out
        if k == "addbad":
            m = self.modes[op[2] % len(self.modes)]
            if op[1] == "street":
                r = Route("bad", m, "1,0", "0,1", "1,0", "0,1")
            elif op[1] == "dup":
                r0 = self.net.get_routes()[0]
                z = self.graph.get_zones()[0]
                a, b = z.periphery.id, z.subcenter.id
                r = Route(r0.id, m, "%d,%d" % (a, b), "%d,%d" % (b, a), "%d,%d" % (a, b), "%d,%d" % (b, a))
            elif op[1] == "mode":
                z = self.graph.get_zones()[0]
                a, b = z.periphery.id, z.subcenter.id
                mm = W.build_mode(dict(self.world["modes"][0], d=3))
                r = Route("other", mm, "%d,%d" % (a, b), "%d,%d" % (b, a), "%d,%d" % (a, b), "%d,%d" % (b, a))
            else:
                r = None
            self.net.add_route(r)
            return "accepted"
        if k == "rmroute":
            rs = self.net.get_routes()
            gone = rs[op[1] % len(rs)] if op[1] >= 0 and rs else None
            self.net.remove_route(gone.id if gone is not None else "no such route")
            self.gone.append(gone)
            return [r.id for r in self.net.get_routes()]
        if k == "rmmode":
            m = self.modes[op[1] % len(self.modes)]
            gone = [r for r in self.net.get_routes() if r.mode is m]
            self.net.remove_transport_mode(m)
            self.gone += gone
            return [r.id for r in self.net.get_routes()]
        if k == "readd":        # the same route object, back in the network
            if not self.gone:
                return "nothing to add"
            r = self.gone[op[1] % len(self.gone)]
            self.net.add_route(r)
            return [r.id for r in self.net.get_routes()]
        if k == "mode":
            m = self.modes[op[1] % len(self.modes)]
            try:
                setattr(m, op[2], op[3])
            finally:
                obs = list(W.mode_obs(m))
            return obs
        if k == "pax":
            setattr(self.pax, op[1], op[2])
            return list(W.pax_obs(self.pax))
        if k == "defaults":
            ms = TransportMode.get_default_modes()
            p = Passenger.get_default_passenger()
            obs = [list(W.mode_obs(m)) for m in ms] + [list(W.pax_obs(p))]
            ms[op[1] % 2].co = op[2]
            ms[op[1] % 2].kmax = op[2] * 10
            p.va = 1 + op[2]
            ms.pop()
            if op[1] % 3 == 0:
                self.pax = p
            return obs
        if k == "open":
            self.open(op[1])
            self.opt = self.holder = None
            return [W.city_obs(self.graph)["nodes"], [r.id for r in self.net.get_routes()]]
        if k == "badopen":
            Graph.build_from_parameters(*op[1])
            return "accepted"
        if k == "build":
            self.opt = None
            self.opt = W.optimizer(self, self.freqs(op[1]) if op[1] else None)
            x = W.vec_for(self, op[2])
            return [float(self.opt.VRC(x)), [float(c) for c in self.opt.get_constrains(x)], self.choice_obs(self.opt)]
        if k == "eval":
            if self.opt is None:
                return "none"
            x = W.vec_for(self, op[1])
            return [float(self.opt.VRC(x)), [float(c) for c in self.opt.get_constrains(x)]]
        if k == "text":
            if self.opt is None:
                return "none"
            return W.text_obs(self.opt, op[1], op[2])
        if k == "optimise":
            self.holder = None
            with solver.using(solver.Script(op[1], self.env)) as s:
                h = Optimizer.network_optimization(self.graph, self.demand, self.pax, self.net, None, 0.01, op[2])
            self.holder = h
            return [C.res_obs(h.get_optimization_value()), len(s.calls), [c.get("fun") for c in s.calls]]
        if k == "report":
            if self.holder is None:
                return "none"
            self.count += 1
            return list(C.report_obs(self.holder, op[1], self.env, self.path("rep%d.csv" % self.count)))[1]
        if k == "export":
            self.count += 1
            if op[1] == "citytext":
                return self.graph.export_graph()
            p = self.path("exp%d.txt" % self.count)
            if op[1] == "city":
                self.graph.graph_to_pajek_file(p)
            elif op[1] == "od":
                self.demand.matrix_to_file(p)
            else:
                self.net.routes_to_file(p)
            return fsim.real_bytes(p).decode("utf-8")
        if k == "reload":
            self.count += 1
            p, q = self.path("c%d.pajek" % self.count), self.path("d%d.csv" % self.count)
            self.graph.graph_to_pajek_file(p)
            self.demand.matrix_to_file(q)
            g = Graph.build_from_file(p)
            d = Demand.build_from_file(g, q)
            return [W.city_obs(g)["nodes"], sorted(W.demand_obs(d)["cells"].items())]
        if k == "fault":
            self.env.fs.arm(op[1])
            try:
                return self.do(op[2])
            finally:
                self.env.fs.disarm()
        if k == "abort":
            it, out = sched.interrupted(lambda: self.do(op[3]), op[1], EXCS[op[2]]("simulated"))
            if it.fired:
                self.env.fault("interrupt_%s" % op[2])
                return ["aborted", it.fired[0], out[0]]
            if out[0] == "exc":
                raise out[1]
            return out[1]
        raise AssertionError("unknown operation %r" % (op,))

    @staticmethod
    def choice_obs(opt):
        out = []
        for o in opt.hyperpaths:
            for d in opt.hyperpaths[o]:
                out.append([int(o.graph_node.id), int(d.graph_node.id), float(opt.Vij[o][d]),
                            [[s.mode.name, float(opt.labels[o][d][s]), float(opt.assignment[o][d][s])] for s in opt.hyperpaths[o][d]]])
        return out


# ------------------------------------------------------------------ rebuilding
def spec_of(sess):
    """The state the session's objects show, as plain data."""
    modes = []
    for m in list(sess.net.get_modes()) + list(sess.modes):
        if not any(m is x for x in modes):
            modes.append(m)

    def at(m):
        return [x is m for x in modes].index(True)
    return {"city": sess.world["city"], "cells": sorted((o, d, v) for (o, d), v in W.demand_obs(sess.demand)["cells"].items() if v),
            "pax": W.pax_obs(sess.pax), "modes": [W.mode_obs(m) for m in modes], "net": [at(m) for m in sess.net.get_modes()],
            "mine": [at(m) for m in sess.modes],
            "routes": [(r.id, at(r.mode), [[int(a) for a in q] for q in (r.nodes_sequence_i, r.nodes_sequence_r, r.stops_sequence_i, r.stops_sequence_r)],
                        r._type.name) for r in sess.net.get_routes()]}


def fresh(spec, graph=None, demand=None):
    """New objects in that state."""
    w = W.W()
    w.graph = graph if graph is not None else W.build_city(spec["city"])
    if demand is None:
        demand = Demand(w.graph)
        for o, d, v in spec["cells"]:
            demand.change_vij(o, d, v)
    w.demand = demand
    w.pax = Passenger(*spec["pax"])
    # created with one line, so that the network takes them; their lines are set last
    fields = [dict(zip(W.MODE_FIELDS, m)) for m in spec["modes"]]
    made = [TransportMode(d["name"], d["bya"], d["co"], d["c1"], d["c2"], d["v"], d["t"], 1, d["kmax"], d["theta"], d["tat"], 1, 1) for d in fields]
    w.modes = [made[i] for i in spec["mine"]]
    w.net = TransportNetwork(w.graph)
    for i in spec["net"]:
        w.net.add_transport_mode(made[i])
    for rid, m, seqs, kind in spec["routes"]:
        w.net.add_route(Route(rid, made[m], *[",".join(str(a) for a in q) for q in seqs], RouteType[kind]))
    for m, d in zip(made, fields):
        for k in ("d", "fmax", "fini"):
            setattr(m, k, d[k])
    return w
