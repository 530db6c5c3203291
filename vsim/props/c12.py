"""C12: the reports agree with each other and with the published optimum."""
import re

import numpy as np

from vsim import worlds as W, solver, fsim
from vsim.props import common as C
from sidermit.optimization import OperatorsCost
from sidermit.optimization.optimizer import Optimizer

ID = "C12"
RUNS = {"quick": 2600, "thorough": 24000}
RULE = "distinct event logs of runs in which a published result that serves all demand was reported at least twice"
STATE_MEASURE = "hash of (route families, which routes unused / in service without boardings, kinds of report asked for)"
REAL = ["sidermit.optimization (reports, costs, assignment, route choice)", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted outcomes; the real one, cut short, in some rounds", "raw file I/O - simulated storage"]
ASSUMPTIONS = ["the published frequencies still serve every demand pair", "total demand is positive"]
MUST_HIT = ["real_solver_round", "net", "all", "netstr", "allstr", "file", "summary", "unused_route", "nobody_boards", "empty_section", "circular", "express", "failed_save", "evaluated_between", "two_modes", "other_result"]
SHRINK = [["asks"], ["world", "routes"], ["world", "demand", "cells"], ["script"]]


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 4), (2, 5)), extra=3, lines=0.15)
    if tier == "thorough" and rng.random() < 0.03:
        world = W.draw_world(rng, weights=((3, 1),), extra=2, sparse=0.95)
    script = C.service_script(rng, rng.randint(1, 3))
    for r in script:
        k = rng.choice([0, 0, 0, 1, 1, 2])
        r["x"] = W.draw_freq(rng, 7, rng.choice([0.05, 1, 10]), rng.choice([2, 40, 120]))
        for _ in range(k):
            r["x"][rng.randrange(7)] = rng.choice([0.0, 0.0, 0.01, 0.0416])
        if rng.random() < 0.5:
            r["fun"] = "eval"
    if world["city"]["n"] == 1 and len(world["routes"]) < 3 and rng.random() < 0.1:
        script[-1]["real"] = {"maxiter": rng.randint(10, 60)}
    asks = []
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.72:
            asks.append([rng.choice(C.REPORTS)])
        elif k < 0.84:
            asks.append(["badfile", rng.choice([{"op": "open", "nth": 0, "kind": "eacces"}, {"op": "bytes", "at": rng.choice([0, 20, 200, rng.randint(0, 900)]), "kind": "enospc"},
                                                {"op": "write", "nth": rng.choice([0, 0, 1]), "kind": "eio"}, {"op": "close", "nth": 0, "kind": "eio"}])])
        elif k < 0.93:
            asks.append(["eval", W.draw_freq(rng, 4, 0.5, 80)])
        else:
            # another published result over the same inputs, reported in between
            s2 = C.service_script(rng, rng.randint(1, 2))
            if rng.random() < 0.5:
                s2[-1]["x"][rng.randrange(len(s2[-1]["x"]))] = 0.0
            asks.append(["other", s2, rng.choice(C.REPORTS)])
    return {"world": world, "script": script, "asks": asks, "knobs": C.draw_knobs(rng)}


def numbers(s):
    return [float(a) for a in re.findall(r"-?(?:\d+\.\d+(?:e[-+]?\d+)?|\d+(?:e[-+]?\d+)?|inf|nan)", s)]


def execute(plan, env):
    env.fs.configure(plan["knobs"])
    w = W.build(plan["world"])
    with solver.using(solver.Script(plan["script"], env)):
        o = C.outcome_exc(lambda: Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, len(plan["script"]) - 1))
    if o[0] == "exc":
        env.log("not published", o[1])
        env.probe("not_published")
        return
    opt = o[1]
    value = C.res_obs(opt.get_optimization_value())
    pub = np.array(value[0])
    routes = w.net.get_routes()
    total = w.demand.get_total_trips()
    fd = dict(zip([r.id for r in routes], value[0]))

    def reference():
        """None if the published frequencies leave demand unserved."""
        try:
            ref = C.Ref(w, pub)
            f, z, v, load = ref.flows(pub)
        except Exception as e:
            return type(e).__name__
        oc = OperatorsCost()
        cyc = oc.get_cycle_time(z, v, routes, oc.lines_travel_time(routes, w.graph.get_edges_distance()))
        rows = []
        for r in routes:
            fr = fd[r.id]
            m = r.mode
            dirs = (("I", r.nodes_sequence_i, r.stops_sequence_i), ("R", r.nodes_sequence_r, r.stops_sequence_r))
            if fr <= 0:
                rows.append([r.id, 0, 0, 0, 0, 0, 0, 0] + [[(int(s[j]), int(s[j + 1]), 0.0) for j in range(len(s) - 1)] for _, s, _ in dirs])
                continue
            k = max([float(x) for d in load[r.id] for x in load[r.id][d].values()] or [0.0])
            tables = []
            for name, seq, stops in dirs:
                at = {}
                for s, x in load[r.id][name].items():
                    at[int(s.city_node.graph_node.id)] = float(x)
                t = []
                for j in range(len(seq) - 1):
                    # what the vehicle carried out of its last stop
                    last = [int(a) for a in seq[:j + 1] if a in stops]
                    t.append((int(seq[j]), int(seq[j + 1]), at.get(last[-1], 0.0) / k if last and k > 0 else 0.0))
                tables.append(t)
            board = sum(float(x) for d in z[r.id] for x in z[r.id][d].values())
            tc = float(cyc[r.id])
            co = (m.co + m.c1 * k) * tc * fr / (board * fr) if board > 0 else 0.0
            rows.append([r.id, fr, fr / m.d, k, fr * tc, tc * 60, co, min([c for t in tables for _, _, c in t] or [0.0])] + tables)
        return {"parts": ref.parts(pub), "rows": rows}

    want = C.alone(reference)
    if isinstance(want, str):
        env.log("demand unserved", want)
        env.probe("unserved")
        return
    rows = want["rows"]
    co, ci, cu = want["parts"]
    fams = tuple(sorted({e[0] for e in plan["world"]["routes"]}))
    unused = sum(1 for r in rows if r[1] == 0)
    nobody = sum(1 for r in rows if r[1] > 0 and r[3] == 0)
    if unused:
        env.probe("unused_route")
    if nobody:
        env.probe("nobody_boards")
    if any(r[3] > 0 and r[7] == 0 for r in rows):
        env.probe("empty_section")
    if "circular" in fams:
        env.probe("circular")
    if any(len(e) > 2 and e[2].get("express") for e in plan["world"]["routes"]):
        env.probe("express")
    if len(w.net.get_modes()) > 1:
        env.probe("two_modes")
    env.log("published", value, fams)

    modes = {}
    for r, row in zip(routes, rows):
        if row[1] > 0:
            modes.setdefault(r.mode.name, []).append((row[4], r.mode.d, row[3]))

    def judge_net(got):
        env.check([g[0] for g in got] == [r.id for r in routes], "rows", lambda: "network report rows %r, routes %r" % ([g[0] for g in got], [r.id for r in routes]))
        for g, x, r in zip(got, rows, routes):
            env.check(g[1] == x[1], "row-frequency", lambda: "route %s reported at %r veh/h, published %r" % (r.id, g[1], x[1]))
            for j, what in ((2, "frequency per line"), (3, "vehicle size"), (4, "fleet"), (5, "cycle time"), (6, "operators cost per passenger"), (7, "minimum load")):
                env.check(W.close(g[j], x[j], 1e-9, 1e-9), "row-" + what.replace(" ", "-"), lambda: "route %s (published at %r veh/h): %s reported %r, should be %r" % (r.id, x[1], what, g[j], x[j]))
            for j, what in ((8, "I"), (9, "R")):
                d = W.diff(g[j], x[j], "", 1e-9, 1e-9)
                env.check(d is None, "section-loads", lambda: "route %s direction %s: section loads %r, should be %r" % (r.id, what, g[j], x[j]))
                env.check(all(-1e-12 <= c <= 1 + 1e-9 for _, _, c in g[j]), "section-loads", lambda: "route %s direction %s: section loads %r outside 0..1" % (r.id, what, g[j]))

    def judge_all(got):
        env.check(W.close(got["VRC"], (co + ci + cu) / total, 1e-9, 1e-12), "total-cost", lambda: "overall report VRC %r, the published frequencies cost %r per passenger" % (got["VRC"], (co + ci + cu) / total))
        env.check(W.close(got["VRC"], got["operators_cost"] + got["infrastructure_cost"] + got["users_cost"], 1e-9, 1e-12), "parts-do-not-add", lambda: "VRC %r, operators %r + infrastructure %r + users %r" % (
            got["VRC"], got["operators_cost"], got["infrastructure_cost"], got["users_cost"]))
        mk = {r.id: r.mode for r in routes}
        ops = sum((mk[x[0]].co + mk[x[0]].c1 * x[3]) * x[4] for x in rows) / total
        env.check(W.close(got["operators_cost"], ops, 1e-9, 1e-12), "operators-cost", lambda: "overall report operators cost %r, its rows give %r" % (got["operators_cost"], ops))
        env.check(W.close(got["infrastructure_cost"], ci / total, 1e-9, 1e-12), "infrastructure-cost", lambda: "overall report infrastructure cost %r, should be %r" % (got["infrastructure_cost"], ci / total))
        p = w.pax
        us = (got["access_time"] * p.spa + got["waiting_time"] * p.spw + got["travel_time_on_board"] * p.spv + got["transfers"] * p.spt * p.spv) / 60
        env.check(W.close(got["users_cost"], us, 1e-9, 1e-12), "users-cost", lambda: "overall report users cost %r, its times and transfers give %r" % (got["users_cost"], us))
        for key, pick in (("vehicles_mode", lambda l: sum(a for a, _, _ in l)), ("lines_mode", lambda l: sum(b for _, b, _ in l)), ("vehicle_capacity_mode", lambda l: sum(c for _, _, c in l) / len(l))):
            d = W.diff(dict(got[key]), {m: float(pick(l)) for m, l in modes.items()}, "", 1e-9, 1e-12)
            env.check(d is None and len(got[key]) == len(modes), "mode-totals", lambda: "%s reported %r, the rows give %r" % (key, got[key], {m: pick(l) for m, l in modes.items()}))

    def near(a, b):
        return abs(a - b) <= 0.00501 + 1e-9 * abs(b) or (a != a and b != b)

    def judge_netstr(got):
        lines = got.split("\n")
        env.check(len(lines) == len(rows) + 1, "text-rows", lambda: "network text has %d lines for %d routes" % (len(lines), len(rows)))
        for ln, x in zip(lines[1:], rows):
            c = ln.split(";")
            ok = len(c) == 10 and c[0] == x[0] and all(near(float(a), b) for a, b in zip(c[1:8], x[1:8]))
            for t, sec in ((8, x[8]), (9, x[9])):
                flat = [a for s in sec for a in s]
                # the section tables are written with all digits, possibly as numpy scalars
                nums = numbers(c[t].replace("np.float64", "")) if ok else []
                ok = ok and len(nums) == len(flat) and all(W.close(a, b, 1e-9, 1e-9) for a, b in zip(nums, flat))
            env.check(ok, "text-row", lambda: "route %s: text row %r, should say %r" % (x[0], ln, x))

    def judge_allstr(got):
        r = numbers_report[0]
        say = [float(a) for a in re.findall(r": *(-?[\d.]+|nan|inf)\s*$", got, re.M)]
        exp = [r["VRC"], r["operators_cost"], r["infrastructure_cost"], r["users_cost"], r["travel_time_on_board"], r["waiting_time"], r["access_time"],
               r["travel_time_on_board"] + r["access_time"] + r["waiting_time"], r["transfers"], float(len(modes))]
        for (m, b), (_, k), (_, l) in zip(r["vehicles_mode"], r["vehicle_capacity_mode"], r["lines_mode"]):
            exp += [b, k, l]
        env.check(len(say) == len(exp) and all(near(a, b) for a, b in zip(say, exp)), "text-overall", lambda: "overall text says %r, the report holds %r: %s" % (say, exp, got))

    def judge_summary(got):
        pub = value
        head, _, tail = got.rpartition("Frequency information")
        say = [ln.strip().rsplit(":", 1) for ln in tail.split("\n")[1:] if ln.strip()]
        ok = [x[0] for x in say] == [str(r[0]) for r in rows] and all(near(float(x[1]), r[1]) for x, r in zip(say, rows))
        env.check(ok, "summary-frequencies", lambda: "the summary lists %r, published %r" % (say, [r[:2] for r in rows]))
        for key, want in (("Success", str(pub[1])), ("Status", str(pub[2])), ("Max constrain violation", pub[4]), ("VRC", pub[5])):
            x = re.findall(r"^%s *: *(\S+)" % key, head, re.M)[-1:]
            good = x and (x[0] == want if isinstance(want, str) else W.close(float(x[0]), want, 1e-9, 1e-9))
            env.check(good, "summary-value", lambda: "the summary says %s %r, published %r" % (key, x, want))

    numbers_report = [None]
    numbers_report[0] = C.alone(lambda: C.report_obs(opt, "all")[1])
    seen = {}
    others = []
    asked = 0
    for ai, ask in enumerate(plan["asks"]):
        env.steps += 1
        kind = ask[0]
        if kind == "eval":
            W.outcome(lambda: opt.VRC(W.vec_for(w, ask[1])))
            W.outcome(lambda: W.optimizer(w, W.freqs(w, ask[1])).VRC(W.vec_for(w, ask[1])))
            env.probe("evaluated_between")
            continue
        if kind == "other":
            with solver.using(solver.Script(ask[1], env)):
                o = C.outcome_exc(lambda: Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, len(ask[1]) - 1))
            if o[0] == "ok":
                W.outcome(lambda: C.report_obs(o[1], ask[2], env, env.path("r%d.csv" % (ai % 2))))
                others.append(o[1])
                env.probe("other_result")
            env.log("other", o[0])
            continue
        path = env.path("r%d.csv" % (ai % 2))
        if kind == "badfile":
            env.fs.arm([ask[1]])
            o = C.outcome_exc(lambda: opt.write_file_network_results(path))
            hit = bool(env.fs.fired)
            env.fs.disarm()
            if hit:
                env.probe("failed_save")
                env.check(o[0] == "exc", "save-error-swallowed", lambda: "the report save met %r and returned normally" % (ask[1],))
            kind = "file"
        got = C.report_obs(opt, kind, env, path)[1]
        asked += 1
        env.probe(kind)
        env.log(kind, got)
        if kind == "net":
            judge_net(got)
        elif kind == "all":
            judge_all(got)
        elif kind in ("netstr", "file"):
            judge_netstr(got)
        elif kind == "allstr":
            judge_allstr(got)
        elif kind == "summary":
            judge_summary(got)
        else:
            env.check(got == value, "value-changed", lambda: "the published value reads %r, was %r" % (got, value))
        if kind in seen:
            env.check(W.diff(got, seen[kind], "", 1e-12, 0) is None, "report-changed", lambda: "the %s report changed when asked again: %s" % (kind, W.diff(got, seen[kind])))
        seen[kind] = got
    if "file" in seen and "netstr" in seen:
        env.check(seen["file"] == seen["netstr"], "file-differs", lambda: "saved report differs from the text report")
    if asked >= 2:
        env.nontrivial = True
    env.state(fams, unused, nobody, tuple(sorted(seen)))
