"""C09: passengers are conserved at every point of the search."""
from vsim import worlds as W, solver
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C09"
RUNS = {"quick": 3600, "thorough": 20000}
RULE = "distinct event logs of runs in which flows were balanced at one or more points of a search"
STATE_MEASURE = "hash of (route families, modes' lines, split pairs, transfers, circular use)"
REAL = ["sidermit.optimization", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted frequencies and probes; the real one, cut short, in some rounds"]
ASSUMPTIONS = ["frequencies are positive when flows are evaluated", "no trips from a node to itself"]
MUST_HIT = ["real_solver_round", "circular", "split_pair", "two_modes", "transfer", "express_or_custom", "later_round", "tie"]
SHRINK = [["rounds"], ["rounds", "*", "probes"], ["world", "routes"], ["world", "demand", "cells"]]


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 4), (2, 6), (3, 1)), extra=3, two=0.55)
    # walking over several lines: make choices between modes close
    if len(world["modes"]) == 2 and rng.random() < 0.6:
        a, b = world["modes"]
        for k in ("v", "fini", "theta", "tat", "t"):
            if rng.random() < 0.6:
                b[k] = a[k]
        if rng.random() < 0.3:
            b["d"] = a["d"] = 1
        if rng.random() < 0.5:
            for e in [[e[0], 1 - e[1], dict(e[2])] for e in world["routes"] if e[0] != "custom"][:2]:
                if e not in world["routes"]:
                    world["routes"].append(e)
        world["city"]["p"] = rng.choice([1, 2, 4, 8])
    rounds = []
    for _ in range(rng.randint(1, 4)):
        x = W.draw_freq(rng, rng.choice([1, 2, 3, 6]), 0.3, 90)
        if rng.random() < 0.2:
            x[rng.randrange(len(x))] = rng.choice([0.0, 0.01, 0.05])
        if rng.random() < 0.25:
            x = [x[0]]
        rounds.append({"x": x, "probes": [W.draw_freq(rng, rng.choice([1, 5]), 0.05, 120) for _ in range(rng.randint(1, 2))],
                       "fun": W.r3(rng.uniform(100, 9e4)), "cv": 0.0, "status": 1, "reuse": rng.random() < 0.5})
    if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.2:
        rounds[rng.randrange(len(rounds))]["real"] = {"maxiter": rng.randint(2, 30)}
    fin = W.draw_freq(rng, 4) if rng.random() < 0.4 else None
    return {"world": world, "rounds": rounds, "f": fin}


def nid(stop_node):
    return int(stop_node.city_node.graph_node.id)


def check_point(env, w, opt, x, fun, con):
    routes = w.net.get_routes()
    ids = [r.id for r in routes]
    f = {i: v for i, v in zip(ids, x)}
    cells = {k: v for k, v in W.demand_obs(w.demand)["cells"].items() if v != 0}
    total = sum(cells.values())
    tol = 1e-7 * max(1.0, total)

    # stop shares
    seen = {}
    for o in opt.hyperpaths:
        for d in opt.hyperpaths[o]:
            seen[(int(o.graph_node.id), int(d.graph_node.id))] = [float(opt.assignment[o][d][s]) for s in opt.hyperpaths[o][d]]
    for od, v in cells.items():
        env.check(od in seen, "trips-lost", lambda: "pair %d-%d has %r trips and no route choice" % (od[0], od[1], v))
        sh = seen[od]
        env.check(abs(sum(sh) - 100) < 1e-7 and min(sh) >= -1e-9, "shares", lambda: "pair %d-%d: stop shares %r do not make 100%%" % (od[0], od[1], sh))
        if sum(1 for s in sh if s > 0) > 1:
            env.probe("split_pair")
    fd = opt.fopt_to_f(x)
    z, v, load = W.flows(opt, fd)

    def at(dic, rid, dr):
        out = {}
        for s in dic[rid][dr]:
            out[nid(s)] = out.get(nid(s), 0.0) + float(dic[rid][dr][s])
        return out
    net = {}
    board_total = 0.0
    maxload = {}
    for r in routes:
        mx = 0.0
        for dr, stops in (("I", r.stops_sequence_i), ("R", r.stops_sequence_r)):
            zz, vv, ll = at(z, r.id, dr), at(v, r.id, dr), at(load, r.id, dr)
            stops = [int(s) for s in stops]
            for name, dd in (("boardings", zz), ("alightings", vv), ("load", ll)):
                for s in dd:
                    env.check(dd[s] >= -1e-9, "negative-flow", lambda: "%s %s: %s %r at node %d" % (r.id, dr, name, dd[s], s))
                    env.check(s in stops or abs(dd[s]) < 1e-12, "flow-off-route", lambda: "%s %s: %s at node %d, not one of its stops" % (r.id, dr, name, s))
            for s in set(zz) | set(vv):
                net[s] = net.get(s, 0.0) + f[r.id] * (vv.get(s, 0.0) - zz.get(s, 0.0))
            board_total += f[r.id] * sum(zz.values())
            mx = max([mx] + list(ll.values()))
            t = tol / max(f[r.id], 1e-6)
            if not stops:
                env.check(not any(abs(a) > 1e-12 for a in list(zz.values()) + list(vv.values()) + list(ll.values())), "flow-off-route",
                          lambda: "%s %s runs nowhere but carries people" % (r.id, dr))
                continue
            if r._type.name == "CIRCULAR":
                if stops[0] == stops[-1]:
                    stops = stops[:-1]
                if zz:
                    env.probe("circular")
                for i, s in enumerate(stops):
                    p = stops[i - 1]
                    want = ll.get(p, 0.0) + zz.get(s, 0.0) - vv.get(s, 0.0)
                    env.check(abs(want - ll.get(s, 0.0)) <= t, "load-balance", lambda: "circular %s: load leaving node %d is %r, arriving %r + boarding %r - alighting %r" % (
                        r.id, s, ll.get(s, 0.0), ll.get(p, 0.0), zz.get(s, 0.0), vv.get(s, 0.0)))
            else:
                run = 0.0
                for i, s in enumerate(stops):
                    run = run + zz.get(s, 0.0) - vv.get(s, 0.0)
                    env.check(abs(run - ll.get(s, 0.0)) <= t, "load-balance", lambda: "%s %s: load leaving node %d is %r, balance of boardings and alightings %r" % (
                        r.id, dr, s, ll.get(s, 0.0), run))
                env.check(abs(run) <= t, "load-balance", lambda: "%s %s: %r people per vehicle left on board past the last stop" % (r.id, dr, run))
            if (r.nodes_sequence_i and len(r.nodes_sequence_i) != len(r.stops_sequence_i) or r._type.name == "CUSTOM") and zz:
                env.probe("express_or_custom")
        maxload[r.id] = mx
    for s in set(net) | {o for o, _ in cells} | {d for _, d in cells}:
        want = sum(t for (o, d), t in cells.items() if d == s) - sum(t for (o, d), t in cells.items() if o == s)
        env.check(abs(net.get(s, 0.0) - want) <= tol, "node-balance", lambda: "node %d: alighting minus boarding is %r people/h, trips ending minus starting %r" % (s, net.get(s, 0.0), want))
    if board_total > total + tol:
        env.probe("transfer")
    # capacity constraint
    c = [float(a) for a in (con if con is not None else opt.get_constrains(x))]
    for i, r in enumerate(routes):
        want = maxload[r.id] - r.mode.kmax
        env.check(W.close(c[i], want, 1e-9, 1e-7), "capacity-constraint", lambda: "%s: capacity constraint %r, greatest load %r minus vehicle size %r" % (r.id, c[i], maxload[r.id], r.mode.kmax))
    env.nontrivial = True


def execute(plan, env):
    w = W.build(plan["world"])
    if len(w.net.get_modes()) > 1:
        env.probe("two_modes")
    f = W.freqs(w, plan["f"]) if plan["f"] else None
    state = {"f": f}
    for r in plan["rounds"]:
        if len(set(r["x"])) == 1 and len(r["x"]) == 1:
            env.probe("tie")

    def on_round(rec, fun, cfuns):
        if rec["i"]:
            env.probe("later_round")
            state["f"] = W.freqs(w, script.calls[rec["i"] - 1]["x"])
        opt = W.outcome(lambda: W.optimizer(w, state["f"]))
        env.check(opt[0] == "ok", "round-unbuildable", lambda: "round %d runs but its optimizer cannot be built again: %s" % (rec["i"], opt[1]))
        opt = opt[1]
        if rec["i"] and script.calls[rec["i"] - 1].get("real"):
            env.probe("after_real_round")
        for p in rec["probes"]:
            env.steps += 1
            env.check(W.close(opt.VRC(p["x"]), p["fun"], 1e-9, 1e-6), "round-differs", lambda: "round %d: the search saw cost %r at %r, its route choice gives %r" % (
                rec["i"], p["fun"], p["x"], float(opt.VRC(p["x"]))))
            check_point(env, w, opt, p["x"], p["fun"], p["con"])

    script = solver.Script(plan["rounds"], env, on_round=on_round)
    with solver.using(script):
        out = C.outcome_exc(lambda: Optimizer.external_optimization(w.graph, w.demand, w.pax, w.net, f, 1e-6, len(plan["rounds"]) - 1))
    env.log("search", len(script.calls), out[0], [c["fun"] for c in script.calls if "fun" in c])
    env.state([e[0] for e in plan["world"]["routes"]], [m["d"] for m in plan["world"]["modes"]], sorted(env.probes))
