"""C16: results depend on the current inputs only."""
from vsim import worlds as W, solver
from vsim import session as S
from vsim.props import common as C
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization import InfrastructureCost, OperatorsCost

ID = "C16"
RUNS = {"quick": 1400, "thorough": 9000}
RULE = "distinct event logs of runs in which an edited session was compared with fresh objects after one or more edits"
STATE_MEASURE = "hash of (kinds of accepted and rejected edits since the last comparison, kinds of uses between them)"
REAL = ["sidermit.optimization", "sidermit.city", "sidermit.publictransportsystem"]
STUB = ["scipy.optimize.minimize - scripted", "raw file I/O - simulated storage"]
ASSUMPTIONS = ["the city itself offers no edits", "an optimizer built before a route, mode or passenger edit is not used afterwards"]
MUST_HIT = ["edit_od", "edit_mode", "edit_pax", "edit_addfam", "edit_rmroute", "edit_readd", "rejected", "compared", "old_demand_kept", "published", "published_again", "reported"]
SHRINK = [["steps"], ["world", "routes"], ["world", "demand", "cells"]]


def gen(rng, tier, i):
    world = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
    n, nm = world["city"]["n"], len(world["modes"])
    steps = []
    nsolve = rng.randint(1, 2)

    def script():
        sc = C.service_script(rng, nsolve)
        for r in sc:
            r["fun"] = "eval"
        return sc
    # with `again` the very same call is repeated on the same objects after edits
    again = rng.random() < 0.5
    for _ in range(rng.randint(5, 14)):
        k = rng.random()
        if k < 0.55:
            steps.append(["edit", S.draw_edit(rng, n, nm)])
            if steps[-1][1][0] == "rmroute" and rng.random() < 0.5:
                steps.append(["edit", ["readd", -1]])
        elif k < 0.78:
            steps.append(["use", S.draw_use(rng)])
        elif k < 0.9:
            steps.append(["cmp", [W.draw_freq(rng, 4, 0.5, 80)], W.draw_freq(rng, 4) if rng.random() < 0.5 else None, script() if again and rng.random() < 0.6 else None])
        else:
            steps.append(["keep", W.draw_freq(rng, 4, 0.5, 80), [S.draw_edit(rng, n, nm) for _ in range(rng.randint(1, 4))]])
    steps.append(["cmp", [W.draw_freq(rng, 4, 0.5, 80) for _ in range(2)], None, script()])
    return {"world": world, "steps": steps}


def parts_obs(w, held):
    """The cost components asked directly, with a frequency table the caller keeps."""
    held.clear()
    held.update({r.id: 7.5 + j for j, r in enumerate(w.net.get_routes())})

    def go():
        t = OperatorsCost().lines_travel_time(w.net.get_routes(), w.graph.get_edges_distance())
        return {"infrastructure": float(InfrastructureCost().get_infrastruture_cost(w.graph, w.net, held)),
                "travel_time": {r.id: float(t[r.id]) for r in w.net.get_routes()}}
    return W.outcome(go)


def full(w, f, xs, script, env, held=None):
    """Everything an optimizer on these objects says."""
    out = {"parts": parts_obs(w, {} if held is None else held)}

    def build():
        return W.optimizer(w, W.freqs(w, f) if f else None)
    o = W.outcome(build)
    if o[0] == "exc":
        return dict(out, build=o[1])
    opt = o[1]
    out["choice"] = S.Session.choice_obs(opt)
    out["evals"] = [W.eval_obs(opt, W.vec_for(w, x)) for x in xs]
    if script:
        def go():
            with solver.using(solver.Script(script, env)) as s:
                h = Optimizer.network_optimization(w.graph, w.demand, w.pax, w.net, None, 0.01, len(script) - 1)
            r = [C.res_obs(h.get_optimization_value())[0], [c["fun"] for c in s.calls]]
            r.append(W.outcome(lambda: C.report_obs(h, "net")[1]))
            r.append(W.outcome(lambda: C.report_obs(h, "all")[1]))
            return r
        out["published"] = W.outcome(go)
    return out


def fresh_full(env, spec, f, xs, script):
    return full(S.fresh(spec), f, xs, script, env, {})


def execute(plan, env):
    z = C.Zygote(env)
    s = S.Session(plan["world"], env, "s")
    since = []
    dirty = False
    published = 0
    table = {}
    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        if st[0] == "edit":
            op = st[1]
            before = W.inputs_obs(s)
            got = s.step(op)
            env.log("edit", op[:3], got[0], got[1] if got[0] == "exc" else "")
            since.append((op[0], got[0]))
            after = W.inputs_obs(s)
            dirty = True
            if got[0] == "exc":
                env.probe("rejected")
                # a family may be half added: routes before the refused one stay
                if op[0] != "addfam":
                    env.check(after == before, "rejected-edit-changed", lambda: "%r was refused with %s and changed %s" % (op, got[1], W.diff(before, after)))
            else:
                env.probe("edit_%s" % op[0])
                if op[0] == "mode":
                    m = s.modes[op[1] % len(s.modes)]
                    env.check(getattr(m, op[2]) == op[3], "edit-lost", lambda: "mode %s = %r reads back %r" % (op[2], op[3], getattr(m, op[2])))
                elif op[0] == "pax":
                    env.check(getattr(s.pax, op[1]) == op[2], "edit-lost", lambda: "passenger %s = %r reads back %r" % (op[1], op[2], getattr(s.pax, op[1])))
                elif op[0] == "od":
                    env.check(got[1][2] == op[3], "edit-lost", lambda: "OD cell set to %r reads %r" % (op[3], got[1][2]))
            continue
        if st[0] == "use":
            if dirty and st[1][0] in ("eval", "report", "text"):
                continue          # the held optimizer predates an edit
            got = s.step(st[1])
            env.log("use", st[1][0], got[0], got[1] if got[0] == "exc" else "")
            since.append((st[1][0], got[0]))
            if st[1][0] in ("build", "optimise"):
                dirty = False
            continue
        if st[0] == "keep":
            o = W.outcome(lambda: W.optimizer(s))
            if o[0] == "exc":
                continue
            x = W.vec_for(s, st[1])
            want = W.eval_obs(o[1], x)
            for e in st[2]:
                if e[0] in ("od", "odbad"):
                    got = s.step(e)
                    env.log("keep-edit", e, got[0])
                    since.append((e[0], got[0]))
                    dirty = True
            got = W.eval_obs(o[1], x)
            env.probe("old_demand_kept")
            env.check(W.diff(got, want, "", 1e-12, 0) is None, "old-optimizer-changed", lambda: "an optimizer built before an OD edit evaluates differently after it: %s" % W.diff(got, want))
            continue
        _, xs, f, script = st
        want = z.call(fresh_full, S.spec_of(s), f, xs, script)
        got = full(s, f, xs, script, env, table)
        env.probe("compared")
        env.log("compare", sorted(got), repr(got.get("build")), got["evals"] if "evals" in got else "")
        if "published" in got and got["published"][0] == "ok":
            env.probe("published")
            if published and since:
                env.probe("published_again")
            published += 1
            if got["published"][1][3][0] == "ok":
                env.probe("reported")
        d = W.diff(got, want, "", 1e-9, 1e-7)
        env.check(d is None, "stale-result", lambda: "after %r an optimizer on the edited objects differs from one on fresh objects in the same state: %s" % (since, d))
        env.state(tuple(sorted(set(since))), len(since))
        if any(k[0] in ("od", "mode", "pax", "addfam", "rmroute", "readd") for k in since):
            env.nontrivial = True
        since = []
        dirty = False
    z.close()
