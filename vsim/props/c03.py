"""C03: saves complete or raise, and can be retried."""
import csv
import gc
import io

from vsim import worlds as W, fsim, solver
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer

ID = "C03"
RUNS = {"quick": 5000, "thorough": 40000}
RULE = "distinct event logs of runs in which at least one save met a fault or was checked for completeness"
STATE_MEASURE = "hash of (kind of file, fault, where it hit, outcome)"
REAL = ["sidermit.city.graph, sidermit.city.demand, sidermit.publictransportsystem.network, sidermit.optimization.optimizer",
        "CPython text/buffered I/O layers", "pandas"]
STUB = ["raw file I/O - simulated storage", "numerical solver - scripted (supplies a result to report)"]
ASSUMPTIONS = ["a failed close reports the error from close()"]
MUST_HIT = ["fs_open_eacces", "fs_write_eio", "fs_bytes_enospc", "fs_close_eio", "fs_write_short", "fs_write_eintr", "retried", "held"]
SHRINK = [["steps"]]
KINDS = ["city", "demand", "routes", "results"]


def draw_fault(rng):
    k = rng.random()
    if k < 0.2:
        return [{"op": "open", "nth": 0, "kind": rng.choice(["eacces", "emfile", "enospc", "erofs"]), "sticky": rng.random() < 0.5}]
    if k < 0.4:
        return [{"op": "write", "nth": rng.choice([0, 0, 1, 2, rng.randint(0, 30)]), "kind": rng.choice(["eio", "enospc", "edquot"]), "sticky": rng.random() < 0.6}]
    if k < 0.65:
        return [{"op": "bytes", "at": rng.choice([0, 1, rng.randint(0, 300), rng.randint(0, 3000), rng.randint(0, 20000)]), "kind": "enospc"}]
    if k < 0.8:
        return [{"op": "close", "nth": 0, "kind": rng.choice(["eio", "enospc", "edquot"])}]
    return [{"op": "write", "nth": rng.choice([0, 0, 1, rng.randint(0, 8)]), "kind": rng.choice(["short", "eintr"]), "bytes": rng.choice([1, 2, 50])}
            for _ in range(rng.randint(1, 3))]


def gen(rng, tier, i):
    plan = {"knobs": C.draw_knobs(rng), "steps": []}
    if rng.random() < 0.3:
        # a bigger city: files longer than the I/O buffers
        n = rng.choice([8, 23, 60])
        plan["city"] = {"n": n, "l": 10, "g": 0.5, "p": 2}
        plan["world"] = None
        kinds = ["city", "demand", "routes"] if n < 60 else ["city", "routes"]
    else:
        plan["world"] = W.draw_world(rng, weights=((1, 5), (2, 1)), extra=1)
        plan["script"] = C.service_script(rng, 1)
        kinds = KINDS
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < 0.22:
            plan["steps"].append(["edit", rng.choice(["od", "route", "unroute"]), rng.randint(0, 9), W.r3(rng.uniform(0, 5000))])
        elif k < 0.3:
            plan["steps"].append(["drop"])
        else:
            plan["steps"].append(["save", rng.choice(kinds), rng.randrange(2), draw_fault(rng) if rng.random() < 0.65 else None, rng.random() < 0.5])
    return plan


def check_content(env, kind, w, data, linesep):
    """The fault-free file against what the object says."""
    text = data.decode("utf-8").replace("\r\n", "\n")
    if kind == "city":
        env.check(text == w.graph.export_graph().replace("\r\n", "\n"), "incomplete-save", "the city file is not the exported text")
    elif kind == "demand":
        m = w.demand.get_matrix()
        want = [(int(o), int(d), float(m[o][d])) for o in m for d in m[o]]
        rows = list(csv.reader(io.StringIO(text)))
        got = [(int(a), int(b), float(c)) for a, b, c in rows[1:]]
        env.check(sorted(got) == sorted(want), "incomplete-save", lambda: "the OD file has %d of %d cells, or other values" % (len(got), len(want)))
    elif kind == "routes":
        rows = list(csv.reader(io.StringIO(text), delimiter=";"))
        got = [tuple(r) for r in rows[1:]]

        def s(x):
            return ",".join(str(int(a)) for a in x)
        want = [(str(r.id), r.mode.name, s(r.nodes_sequence_i), s(r.nodes_sequence_r), s(r.stops_sequence_i), s(r.stops_sequence_r)) for r in w.net.get_routes()]
        env.check(got == want, "incomplete-save", lambda: "the route file lists %r, the network holds %r" % (got[:3], want[:3]))
    else:
        env.check(text == w.opt.string_network_results(), "incomplete-save", "the results file is not the report text")


def execute(plan, env):
    fs = env.fs
    fs.configure(plan["knobs"])
    if plan["world"] is None:
        world = {"city": plan["city"], "modes": [W.DEFAULT_BUS], "pax": [4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16],
                 "routes": [["radial", 0, {}]], "demand": {"kind": "cells", "cells": [[1, 0, 12.5]]}}
        w = W.build(world)
        w.opt = None
    else:
        w = W.build(plan["world"])
        w.opt = None
        if plan.get("script"):
            with solver.using(solver.Script(plan["script"], env)):
                w.opt = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, 0)

    def saver(kind, path):
        if kind == "city":
            return lambda: w.graph.graph_to_pajek_file(path)
        if kind == "demand":
            return lambda: w.demand.matrix_to_file(path)
        if kind == "routes":
            return lambda: w.net.routes_to_file(path)
        return lambda: w.opt.write_file_network_results(path)

    held = []
    done = {}        # path -> expected bytes
    edited_net = False
    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        if st[0] == "edit":
            ids = [int(n.id) for n in w.graph.get_nodes()]
            if st[1] == "od":
                w.demand.change_vij(ids[st[2] % len(ids)], ids[(st[2] * 3 + 1) % len(ids)], st[3])
                edited_net = True      # the report reads the live demand
            elif st[1] == "unroute":
                rs = w.net.get_routes()
                if len(rs) > 1:
                    w.net.remove_route(rs[st[2] % len(rs)].id)
                    edited_net = True
            else:
                rs = w.net.get_routes()
                if rs and w.graph.get_zones():
                    r = W.custom_route(w.graph, rs[0].mode, {"zone": 1 + st[2] % len(w.graph.get_zones()), "kind": "pair", "id": "E%d" % si})
                    w.net.add_route(r)
                    edited_net = True
            env.log("edit", st[1])
            continue
        if st[0] == "drop":
            held.clear()
            gc.collect()
            env.log("drop")
            for p in done:
                env.check(fsim.real_bytes(p) == done[p], "late-write", "a completed file changed when an earlier failed save was cleaned up")
            continue
        _, kind, slot, fault, hold = st
        if kind == "results" and (w.opt is None or edited_net):
            continue
        path = env.path("%s%d.out" % (kind, slot))
        # what a healthy disk would get
        fs.disarm()
        refp = env.path("ref-%d" % si)
        saver(kind, refp)()
        ref = fsim.real_bytes(refp)
        check_content(env, kind, w, ref, fs.knobs["linesep"])
        before = W.inputs_obs(w)
        fs.arm(fault)
        err = None
        try:
            saver(kind, path)()
        except Exception as e:
            err = e
        fired = [f for f in fs.fired]
        fs.disarm()
        hard = [f["kind"] for f in fired if f["kind"] not in ("short", "eintr")]
        env.log("save", kind, slot, type(err).__name__ if err else "ok", [f["op"] + f["kind"] for f in fired])
        env.state(kind, [(f["op"], f["kind"]) for f in fired], type(err).__name__ if err else "ok")
        env.nontrivial = True
        env.check(W.inputs_obs(w) == before, "save-changed-inputs", lambda: "saving the %s changed the objects in memory" % kind)
        if err is None:
            env.check(not hard, "error-swallowed", lambda: "saving the %s returned normally although %s failed with %s" % (kind, fired[0]["op"], hard[0]))
            got = fsim.real_bytes(path)
            env.check(got == ref, "incomplete-save", lambda: "saving the %s returned normally with %d of %d bytes in the file" % (kind, len(got), len(ref)))
            done[path] = ref
        else:
            env.check(bool(hard), "healthy-save-failed", lambda: "saving the %s raised %r without any storage error" % (kind, err))
            done.pop(path, None)
            if hold:
                held.append(err)
                env.probe("held")
            err = None
            # the fault clears: retry
            if st[2] == 0 or hold:
                saver(kind, path)()
                got = fsim.real_bytes(path)
                env.check(got == ref, "retry-incomplete", lambda: "retrying the save of the %s gave %d bytes, complete is %d" % (kind, len(got), len(ref)))
                done[path] = ref
                env.probe("retried")
    held.clear()
    gc.collect()
    for p in done:
        env.check(fsim.real_bytes(p) == done[p], "late-write", "a completed file changed after the save returned")
