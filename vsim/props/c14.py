"""C14: independent sessions in one process."""
import copy

from vsim import worlds as W, sched
from vsim import session as S
from vsim.props import common as C

ID = "C14"
RUNS = {"quick": 850, "thorough": 8000}
RULE = "distinct event logs of runs in which at least two sessions made progress between each other's operations"
STATE_MEASURE = "hash of (granularity, pairs of operations of different sessions that followed or overlapped one another)"
REAL = ["the whole package: city, demand, network, modes, passengers, optimisation, reports, files"]
STUB = ["scipy.optimize.minimize - scripted per session", "raw file I/O - simulated storage", "thread scheduling - simulated"]
ASSUMPTIONS = ["sessions share no object", "plotting is process-wide by nature and covered by C17"]
MUST_HIT = ["by_operation", "by_line", "preemption", "rejected", "failed_optimisation", "defaults_edited", "reopened", "interrupt_KeyboardInterrupt", "storage_fault"]
SHRINK = [["sessions"], ["sessions", "*", "ops"], ["order"], ["switches"], ["spots"]]


def draw_ops(rng, world, threads, k):
    n, nm = world["city"]["n"], len(world["modes"])
    ops = []
    for _ in range(k):
        q = rng.random()
        if q < 0.36:
            ops.append(S.draw_edit(rng, n, nm))
        elif q < 0.74:
            ops.append(S.draw_use(rng))
        elif q < 0.79:
            ops.append(["odparam", [W.r3(rng.uniform(50, 9000)), 0.5, 0.3, 0.2]] if rng.random() < 0.6 else ["odparam", [100, 2, 0.5, 0.1]])
        elif q < 0.84:
            ops.append(["defaults", rng.randrange(3), W.r3(rng.uniform(1, 9))])
        elif q < 0.88:
            ops.append(["rmmode", rng.randrange(nm)])
        elif q < 0.92:
            w2 = W.draw_world(rng, weights=((1, 5), (2, 2)), extra=1)
            if rng.random() < 0.4:
                w2 = dict(world, city=w2["city"]) if w2["city"]["n"] == world["city"]["n"] else w2
            ops.append(["open", w2])
            n, nm = w2["city"]["n"], len(w2["modes"])
            world = w2
        elif q < 0.94:
            ops.append(["badopen", [rng.choice([-1, 2]), 5, -3, 2]])
        elif q < 0.97 or threads:
            ops.append(["reload"])
        elif rng.random() < 0.5:
            ops.append(["fault", [{"op": "write", "nth": 0, "kind": rng.choice(["enospc", "eio"])}], ["export", rng.choice(["city", "od", "routes"])]])
        else:
            ops.append(["abort", rng.randint(0, 4000), rng.choice(["KeyboardInterrupt", "MemoryError"]),
                        ["build", None, W.draw_freq(rng, 3)] if rng.random() < 0.5 else ["optimise", C.service_script(rng, 1), 0]])
    return ops


def gen(rng, tier, i):
    threads = rng.random() < 0.5
    k = rng.choice([2, 2, 3])
    base = W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
    sessions = []
    for s in range(k):
        m = rng.random()
        if s == 0 or m < 0.3:
            world = copy.deepcopy(base) if s == 0 else W.draw_world(rng, weights=((1, 5), (2, 4)), extra=2)
        else:
            # the same names and ids with other values: what a shared table would mix up
            world = copy.deepcopy(base)
            if m < 0.75:
                for md in world["modes"]:
                    md.update({q: v for q, v in W.draw_mode(rng, md["name"], md["d"] == 1).items() if q not in ("name", "d")})
            if rng.random() < 0.5:
                # a city alike in some of its parameters only
                other = W.draw_city(rng, weights=[(world["city"]["n"], 1)])
                for qs in (("l",), ("p",), ("Gi",), ("Hi",), ("angles",), ("etha", "etha_zone")):
                    if rng.random() < 0.5:
                        for q in qs:
                            world["city"].pop(q, None)
                            if q in other:
                                world["city"][q] = other[q]
            elif m < 0.9:
                world["city"]["l"] = W.r3(world["city"]["l"] * rng.uniform(0.3, 3))
                world["city"]["p"] = W.r3(rng.uniform(0.3, 4))
            world["demand"] = W.draw_demand(rng, world["city"]["n"], 0.7)
            world["pax"] = W.draw_pax(rng)
        sessions.append({"world": world, "ops": draw_ops(rng, world, threads, rng.randint(3, 6) if threads else rng.randint(4, 9))})
    plan = {"threads": threads, "sessions": sessions, "knobs": C.draw_knobs(rng)}
    if threads:
        sw = [[W.r3(rng.random()), rng.randrange(3)] for _ in range(rng.choice([1, 2, 3, 6, 12, 40]))]
        if rng.random() < 0.4:
            at = rng.random()
            sw += [[at + j * 1e-5 * rng.choice([1, 2, 7]), j] for j in range(rng.choice([10, 60]))]
        plan["switches"] = sorted(sw)
        plan["spots"] = [[rng.randrange(k), W.r3(rng.random()), rng.randrange(3)] for _ in range(rng.choice([0, 1, 3, 10, 30]))]
    else:
        order = [s for s in range(k) for _ in sessions[s]["ops"]]
        rng.shuffle(order)
        plan["order"] = order
    return plan


def transcript_alone(env, sp, knobs, dirname, counted):
    env.fs.configure(knobs)
    n = 0

    def go():
        s = S.Session(sp["world"], env, dirname)
        return [s.step(op) for op in sp["ops"]]
    first = []
    if counted:
        n, out = sched.count(go, False, first)
        if out[0] == "exc":
            raise out[1]
        out = out[1]
    else:
        out = go()
    return n, out, first


def execute(plan, env):
    z = C.Zygote(env)
    env.fs.configure(plan["knobs"])
    alone = [z.call(transcript_alone, sp, plan["knobs"], "s%d" % k, plan["threads"]) for k, sp in enumerate(plan["sessions"])]
    z.close()
    got = [[] for _ in alone]
    hist = []
    if plan["threads"]:
        total = sum(a[0] for a in alone)
        env.probe("by_line")

        spots = {}
        for k, u, t in plan.get("spots", []):
            if k < len(alone) and alone[k][2]:
                spots[k, alone[k][2][int(u * len(alone[k][2])) % len(alone[k][2])]] = t

        def body(k):
            def run():
                sp = plan["sessions"][k]
                s = S.Session(sp["world"], env, "s%d" % k)
                for op in sp["ops"]:
                    hist.append((k, op[0]))
                    got[k].append(s.step(op))
            return run
        sc = sched.Scheduler([body(k) for k in range(len(alone))], [[int(f * total), t] for f, t in plan["switches"]], env, spots)
        res = sc.run()
        env.steps += sc.step
        for a in sc.trace[:400]:
            env.log("switch", *a)
        for k, r in enumerate(res):
            if r[0] == "exc":
                raise r[1]
        if len(sc.trace) > 0:
            env.nontrivial = True
    else:
        env.probe("by_operation")
        ss = [None] * len(alone)
        pos = [0] * len(alone)
        for k in list(plan["order"]) + [j for j in range(len(alone)) for _ in plan["sessions"][j]["ops"]]:
            if k >= len(alone):
                continue
            sp = plan["sessions"][k]
            if pos[k] >= len(sp["ops"]):
                continue
            if ss[k] is None:
                ss[k] = S.Session(sp["world"], env, "s%d" % k)
            op = sp["ops"][pos[k]]
            pos[k] += 1
            env.steps += 1
            got[k].append(ss[k].step(op))
            hist.append((k, op[0]))
            env.log("op", k, op[0], got[k][-1][0], got[k][-1][1] if got[k][-1][0] == "exc" else "")
            if op[0] == "fault" and got[k][-1][0] == "exc":
                env.probe("storage_fault")
        env.nontrivial = len({k for k, _ in hist}) > 1
    for a, b in zip(hist, hist[1:]):
        if a[0] != b[0]:
            env.state(plan["threads"], a[1], b[1])
    for k, (n, want, _) in enumerate(alone):
        ops = plan["sessions"][k]["ops"]
        for j, op in enumerate(ops):
            g, e = got[k][j], want[j]
            if g[0] == "exc":
                env.probe("rejected")
                if op[0] == "optimise":
                    env.probe("failed_optimisation")
            if op[0] == "defaults":
                env.probe("defaults_edited")
            if op[0] == "open":
                env.probe("reopened")
            d = W.diff(g, e, "", 1e-12, 0)
            env.check(d is None, "session-affected", lambda: "session %d, operation %d %r: with the other sessions %r, alone %r (%s)" % (
                k, j, op[:2], str(g)[:300], str(e)[:300], d))
