"""C17: a picture shows only the object being plotted."""
import hashlib
import os
import warnings

from vsim import worlds as W, fsim
from vsim.props import common as C

ID = "C17"
RUNS = {"quick": 180, "thorough": 4000}
RULE = "distinct event logs of runs in which a picture drawn after other pictures or failed saves was compared with one drawn first in a fresh process"
STATE_MEASURE = "hash of (what was drawn before, what is drawn now, selection)"
REAL = ["sidermit.city.graph.plot", "sidermit.publictransportsystem.network.plot", "matplotlib (Agg)", "networkx", "Pillow"]
STUB = ["raw file I/O - simulated storage"]
ASSUMPTIONS = ["only the package draws on the process's current figure", "cities with at least one zone (a city without streets cannot be drawn)"]
MUST_HIT = ["city_after_network", "network_after_city", "same_again", "after_failed_save", "after_refused", "subset", "direction_I", "direction_R", "overwrote", "after_edit"]
SHRINK = [["steps"], ["worlds", "*", "routes"]]


def gen(rng, tier, i):
    worlds = [W.draw_world(rng, weights=((1, 1), (2, 2), (3, 4), (4, 2), (6, 1)), extra=3) for _ in range(rng.choice([1, 1, 2]))]
    for w in worlds:
        w["demand"] = {"kind": "cells", "cells": []}
    steps = []
    for _ in range(rng.randint(3, 6)):
        k = rng.random()
        wi = rng.randrange(len(worlds))
        target = rng.randrange(3)             # few paths, so that pictures overwrite others
        if k < 0.35:
            steps.append(["city", wi, target])
        elif k < 0.8:
            steps.append(["net", wi, target, rng.choice([None, None, [rng.randint(0, 40) for _ in range(rng.randint(0, 3))]]), rng.choice([None, None, "I", "R"])])
        elif k < 0.9:
            steps.append(["refused", wi])
        else:
            steps.append(["edit", wi, rng.randint(0, 30)])
            continue
        if rng.random() < 0.3:
            steps.insert(-1, ["fault", rng.choice([{"op": "open", "nth": 0, "kind": "eacces"}, {"op": "write", "nth": rng.choice([0, 0, 1, 2]), "kind": rng.choice(["enospc", "eio"])},
                                                   {"op": "bytes", "at": rng.choice([0, 1, 100, rng.randint(0, 30000)]), "kind": "enospc"}, {"op": "close", "nth": 0, "kind": "eio"}]),
                              steps[-1]])
    return {"worlds": worlds, "steps": steps, "bufsize": rng.choice([8192, 8192, 512])}


def draw(w, st, path):
    if st[0] == "city":
        w.graph.plot(path)
        return
    ids = [r.id for r in w.net.get_routes()]
    sel = None if st[3] is None else [ids[k % len(ids)] for k in st[3]]
    w.net.plot(path, sel, st[4])


def first(env, world, removed, st, path):
    """The same picture as the first one of a fresh process."""
    w = W.build(world)
    for r in removed:
        w.net.remove_route(r)
    draw(w, st, path)
    return fsim.real_bytes(path)


def execute(plan, env):
    warnings.filterwarnings("ignore")
    env.fs.configure({"bufsize": plan["bufsize"]})
    z = C.Zygote(env)
    ws = [W.build(x) for x in plan["worlds"]]
    removed = [[] for _ in ws]
    prev = []
    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        fault = None
        if st[0] == "fault":
            fault, st = st[1], st[2]
            if st[0] == "edit":
                continue
        w = ws[st[1]]
        before = W.inputs_obs(w)
        if st[0] == "edit":
            rs = w.net.get_routes()
            if len(rs) > 1:
                rid = rs[st[2] % len(rs)].id
                w.net.remove_route(rid)
                removed[st[1]].append(rid)
                env.log("removed", rid)
                prev.append("edit")
            continue
        if st[0] == "refused":
            o = C.outcome_exc(lambda: w.net.plot(env.path("x.png"), ["no such route"]))
            env.check(o[0] == "exc", "bad-route-accepted", "a network picture of a route that does not exist was drawn")
            env.check(not os.path.exists(env.path("x.png")), "refused-but-written", "a refused network picture left a file")
            prev.append("refused")
            env.log("refused", o[1])
            continue
        path = env.path("p%d.png" % st[2])
        if fault is not None:
            env.fs.arm([fault])
            o = C.outcome_exc(lambda: draw(w, st, path))
            hit = bool(env.fs.fired)
            env.fs.disarm()
            env.log("faulted", st, fault, hit, o[0])
            after = W.inputs_obs(w)
            env.check(after == before, "plot-changed-inputs", lambda: "a failed %s picture changed the inputs: %s" % (st[0], W.diff(before, after)))
            if hit:
                env.check(o[0] == "exc", "save-error-swallowed", lambda: "the picture save met %r and returned normally" % (fault,))
                prev.append("failed")
                continue
            if o[0] == "exc":
                raise o[2]
        else:
            if os.path.exists(path):
                env.probe("overwrote")
            draw(w, st, path)
        got = fsim.real_bytes(path)
        after = W.inputs_obs(w)
        env.check(after == before, "plot-changed-inputs", lambda: "a %s picture changed the inputs: %s" % (st[0], W.diff(before, after)))
        want = z.call(first, plan["worlds"][st[1]], removed[st[1]], st, env.path("ref.png"))
        env.log("drawn", st, hashlib.sha256(got).hexdigest())
        kind = (st[0], st[1])
        env.check(got == want, "picture-differs", lambda: "the %s picture (%r) drawn after %r differs from the same picture drawn first in a fresh process (%d and %d bytes)" % (
            st[0], st[3:], prev, len(got), len(want)))
        env.check(got[:8] == b"\x89PNG\r\n\x1a\n", "not-a-picture", "the file written is no PNG")
        if prev:
            env.nontrivial = True
        last = [p for p in prev if isinstance(p, tuple)]
        if last and last[-1][0] != st[0]:
            env.probe("%s_after_%s" % ({"city": "city", "net": "network"}[st[0]], {"city": "city", "net": "network"}[last[-1][0]]))
        if last and last[-1] == kind:
            env.probe("same_again")
        if "failed" in prev:
            env.probe("after_failed_save")
        if "refused" in prev:
            env.probe("after_refused")
        if "edit" in prev:
            env.probe("after_edit")
        if st[0] == "net":
            if st[3] is not None:
                env.probe("subset")
            if st[4]:
                env.probe("direction_%s" % st[4])
        env.state(tuple(p if isinstance(p, str) else p[0] for p in prev), st[0], st[3] if st[0] == "net" else None, st[4] if st[0] == "net" else None)
        prev.append(kind)
    z.close()
