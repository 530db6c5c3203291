"""C15: a planning session restarts from its files."""
import os

from vsim import worlds as W, sched, fsim
from vsim import session as S
from vsim.fsim import SimCrash
from vsim.props import common as C
from vsim.props.c16 import full
from sidermit.city import Graph, Demand

ID = "C15"
RUNS = {"quick": 1400, "thorough": 9000}
RULE = "distinct event logs of runs in which a crashed session was restarted from its files and compared"
STATE_MEASURE = "hash of (what the crash hit, edits lost, whether the city file was torn, load outcome)"
REAL = ["sidermit.city", "sidermit.publictransportsystem", "sidermit.optimization", "CPython text/buffered I/O layers", "pandas"]
STUB = ["raw file I/O and the crash itself - simulated storage", "scipy.optimize.minimize - scripted"]
ASSUMPTIONS = ["modes, routes and passengers are re-created by the planner (the system has no file format for reading them)",
               "a crash during the save of the OD matrix itself is not judged", "a crash leaves a prefix of the written bytes",
               "the width on the last line of a torn city file is C02's known finding"]
MUST_HIT = ["restart", "cold_restart", "crash_in_use", "crash_in_city_save", "torn_refused", "edits_lost", "overwrites_other_city", "fs_bytes_crash"]
SHRINK = [["steps"], ["world", "routes"], ["world", "demand", "cells"]]


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
    n, nm = world["city"]["n"], len(world["modes"])
    steps = []

    def work(k):
        for _ in range(k):
            if rng.random() < 0.55:
                steps.append(["edit", S.draw_edit(rng, n, nm)])
            else:
                steps.append(["use", S.draw_use(rng)])
    work(rng.randint(0, 3))
    steps.append(["save"])
    for _ in range(rng.randint(1, 3)):
        work(rng.randint(0, 3))
        if rng.random() < 0.4:
            steps.append(["save"])
            if rng.random() < 0.5:
                work(1)
        k = rng.random()
        xs = [W.draw_freq(rng, 4, 0.5, 80) for _ in range(rng.choice([1, 2]))]
        f = W.draw_freq(rng, 4) if rng.random() < 0.4 else None
        sc = None
        if rng.random() < 0.5:
            sc = C.service_script(rng, rng.randint(1, 2))
            for r in sc:
                r["fun"] = "eval"
        after = [rng.random() < 0.5, C.draw_knobs(rng), xs, f, sc]
        if k < 0.3:
            steps.append(["crash", ["now"]] + after)
        elif k < 0.6:
            steps.append(["crash", ["use", S.draw_use(rng), int(10 ** rng.uniform(0.5, 4))]] + after)
        else:
            how = rng.random()
            if how < 0.7:
                flt = {"op": "bytes", "at": rng.choice([0, rng.randint(0, 200), rng.randint(0, 400)]), "kind": rng.choice(["crash", "crash", "enospc"])}
            else:
                flt = {"op": rng.choice(["open", "write", "write", "close"]), "nth": rng.choice([0, 0, 1, 3]), "kind": rng.choice(["crash", "crash", "eio"])}
            steps.append(["crash", ["save", flt]] + after)
    return {"world": world, "steps": steps, "knobs": C.draw_knobs(rng), "old": W.draw_city(rng, weights=[(1, 1), (2, 1), (3, 1)]) if rng.random() < 0.3 else None}


def families(spec_city_graph, world, modes):
    from sidermit.publictransportsystem import TransportNetwork
    net = TransportNetwork(spec_city_graph)
    return [[W.route_obs(r) for r in W.family_routes(net, spec_city_graph, e, modes)] for e in world["routes"]]


def normal(o):
    """Route choice keyed by pair, whatever the order of nodes."""
    if "choice" in o:
        o["choice"] = {"%d>%d" % (c[0], c[1]): [c[2], c[3]] for c in o["choice"]}
    return o


def original(env, spec, world, xs, f, script):
    w = S.fresh(spec)
    return {"results": normal(full(w, f, xs, script, env)), "city": C.full_city(w.graph), "demand": W.demand_obs(w.demand),
            "families": families(w.graph, world, w.modes)}


def from_files(env, spec, world, xs, f, script, cpath, dpath, knobs):
    env.fs.restart()
    env.fs.configure(knobs)
    g = Graph.build_from_file(cpath)
    d = Demand.build_from_file(g, dpath)
    w = S.fresh(spec, g, d)
    return {"results": normal(full(w, f, xs, script, env)), "city": C.full_city(g), "demand": W.demand_obs(d), "families": families(g, world, w.modes)}


def execute(plan, env):
    fs = env.fs
    fs.configure(plan["knobs"])
    z = C.Zygote(env)
    s = S.Session(plan["world"], env, "s")
    cpath, dpath = s.path("city.pajek"), s.path("od.csv")
    if plan["old"]:
        W.build_city(plan["old"]).graph_to_pajek_file(cpath)
        env.probe("overwrites_other_city")
    olddata = fsim.real_bytes(cpath) if plan["old"] else b""
    saved = None                       # demand cells in the OD file
    since = []
    for st in plan["steps"]:
        env.steps += 1
        if st[0] in ("edit", "use"):
            got = s.step(st[1])
            env.log(st[0], st[1][:2], got[0], got[1] if got[0] == "exc" else "")
            since.append(st[1][0])
            continue
        if st[0] == "save":
            s.graph.graph_to_pajek_file(cpath)
            s.demand.matrix_to_file(dpath)
            saved = S.spec_of(s)["cells"]
            since = []
            env.log("save", fsim.real_bytes(cpath), fsim.real_bytes(dpath))
            continue
        _, how, cold, knobs, xs, f, script = st
        hit = how[0]
        done = True
        spec = S.spec_of(s)            # the planner's own script survives; objects do not
        if hit == "use":
            it, out = sched.interrupted(lambda: s.do(how[1]), how[2], SimCrash("crash"))
            if it.fired:
                env.fault("crash_in_use")
                hit = "use:%s:%s" % (how[1][0], it.fired[0])
                env.check(out[0] == "exc" and isinstance(out[1], SimCrash), "crash-swallowed", lambda: "%r went on after the process died in %s" % (how[1], it.fired[0]))
        elif hit == "save":
            before = fsim.real_bytes(cpath) if os.path.exists(cpath) else None
            fs.arm([how[1]])
            try:
                s.graph.graph_to_pajek_file(cpath)
            except (SimCrash, OSError) as e:
                env.log("city save", how[1], type(e).__name__)
            if fs.fired:
                done = False
                env.fault("crash_in_city_save")
                hit = "save:%s:%s" % (how[1]["op"], how[1]["kind"])
        fs.restart()
        if not os.path.exists(cpath) or (saved is None and done):
            env.log("nothing saved, or only a torn file left")
            s = rebuilt(s, spec, None, None)
            continue
        if saved is not None:
            spec["cells"] = saved
        want = z.call(original, spec, plan["world"], xs, f, script)
        now = fsim.real_bytes(cpath)
        lost = tuple(sorted({k for k in since if k in ("od", "odbad")}))
        if lost:
            env.probe("edits_lost")
        env.probe("cold_restart" if cold else "restart")
        fs.configure(knobs)
        try:
            g = Graph.build_from_file(cpath)
        except Exception as e:
            env.check(not done, "saved-city-refused", lambda: "restart after a crash (%s): the saved city does not load: %r" % (hit, e))
            env.log("restart", hit, "refused", type(e).__name__)
            env.probe("torn_refused")
            env.state(hit, lost, "refused")
            env.nontrivial = True
            saved = None
            s = rebuilt(s, spec, None, None)
            continue
        if not done:
            a, b = C.full_city(g), want["city"]
            if now == olddata and plan["old"]:
                saved = None
                s = rebuilt(s, spec, None, None)
                continue
            same = a["n"] == b["n"] and a["zones"] == b["zones"] and {i: v[:5] for i, v in a["nodes"].items()} == {i: v[:5] for i, v in b["nodes"].items()} and a["streets"] == b["streets"]
            env.check(same, "restarted-on-another-city", lambda: "crash during the city save (%r) left a file of %d bytes that loads as another city: %s" % (how[1], len(now), W.diff(a, b)))
            if {i: v[5] for i, v in a["nodes"].items()} != {i: v[5] for i, v in b["nodes"].items()}:
                env.probe("torn_width")       # C02's known finding
                saved = None
                s = rebuilt(s, spec, None, None)
                continue
        if saved is None:
            env.log("whole city", hit)
            s = rebuilt(s, spec, None, None)
            continue
        if cold:
            o = W.outcome(lambda: z.call(from_files, spec, plan["world"], xs, f, script, cpath, dpath, knobs))
            if o[0] == "exc":
                env.fail("restart-failed", "restart after a crash (%s) failed: %s" % (hit, z_error(z, spec, plan, xs, f, script, cpath, dpath, knobs)))
            got = o[1]
        else:
            got = from_files(env, spec, plan["world"], xs, f, script, cpath, dpath, knobs)
        env.log("restart", hit, cold, got["results"].get("build"), got["results"].get("evals"))
        d = C.city_diff(got["city"], want["city"])
        env.check(d is None, "restarted-on-another-city", lambda: "restart after a crash (%s): city differs: %s" % (hit, d))
        env.check(got["demand"]["cells"] == want["demand"]["cells"] and W.close(got["demand"]["total"], want["demand"]["total"]), "restarted-demand", lambda: "restart after a crash (%s): demand differs: %s" % (
            hit, W.diff(got["demand"], want["demand"])))
        env.check(got["families"] == want["families"], "restarted-routes", lambda: "restart after a crash (%s): the predefined routes of the city differ: %s" % (hit, W.diff(got["families"], want["families"])))
        d = W.diff(got["results"], want["results"], "", 1e-9, 1e-7)
        env.check(d is None, "restarted-results", lambda: "restart after a crash (%s), %r since the last save: results differ from the original objects': %s" % (hit, since, d))
        env.state(hit, lost, done, "loaded")
        env.nontrivial = True
        g = Graph.build_from_file(cpath)
        s = rebuilt(s, spec, g, Demand.build_from_file(g, dpath))
        since = []
    z.close()


def z_error(z, *a):
    try:
        z.call(from_files, *a)
    except C.ChildFailed as e:
        return str(e)[-1500:]
    return "once, not when repeated"


def rebuilt(s, spec, graph, demand):
    """The planner's session after the restart."""
    w = S.fresh(spec, graph, demand)
    t = S.Session.__new__(S.Session)
    t.__dict__.update(s.__dict__)
    t.opt = t.holder = None
    t.graph, t.demand, t.pax, t.modes, t.net = w.graph, w.demand, w.pax, w.modes, w.net
    return t
