"""C13: the same inputs give the same results in every process.

Scenarios (planning sessions as lists of operations) are run by several
interpreter processes that differ in everything a process can differ in, each
difference drawn from the seed; their transcripts must agree."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import time

from vsim import rng as vrng

ID = "C13"
RUNS = {"quick": 300, "thorough": 1500}
VARIANTS = {"quick": 8, "thorough": 16}
RULE = "distinct transcripts of scenarios of three or more operations that every process variant ran to the end"
STATE_MEASURE = "hash of (operation kinds of the scenario, their outcomes)"
REAL = ["the whole package: city, demand, network, modes, passengers, optimisation, reports, files", "CPython hashing, allocation, garbage collection"]
STUB = ["scipy.optimize.minimize - scripted", "raw file I/O - simulated storage",
        "hash seed, heap contents and addresses, GC settings, random state, clock, environment, locale, flags, logging level, working directory and earlier work of each process - chosen by the simulator"]
ASSUMPTIONS = ["one interpreter and one set of library versions", "numbers are compared to 1e-9 relative (summation order is not a result)",
               "address randomisation is off; layouts differ by seeded allocations"]
MUST_HIT = ["hash_seed", "heap_layout", "gc_off", "gc_eager", "gc_between_operations", "history_same_order", "history_reversed", "history_shuffled", "clock_shift", "random_state", "logging", "interpreter_flags", "working_directory"]


# ------------------------------------------------------------------ scenarios
def gen(rng, tier, i):
    from vsim import worlds as W
    from vsim import session as S
    from vsim.props import c14
    from vsim.props import common as C
    world = W.draw_world(rng, weights=((1, 4), (2, 5), (3, 0.5)), extra=3)
    if rng.random() < 0.4:
        # symmetric city, equal frequencies: ties everywhere
        for k in ("Gi", "Hi", "angles", "etha", "etha_zone"):
            world["city"].pop(k, None)
    names = rng.sample(["bus", "metro", "tram", "brt", "ferry", "trolley", "light rail", "m\u00e9tro", "B", "b"], len(world["modes"]))
    if rng.random() < 0.5:
        for m, nm in zip(world["modes"], names):
            m["name"] = nm
    if len(world["modes"]) > 1 and rng.random() < 0.4:
        # modes alike in all but their name, with the same lines: ties between modes
        world["modes"][1] = dict(world["modes"][0], name=world["modes"][1]["name"])
        for m in world["modes"]:
            m["d"] = 1
        fams = {k: o for k, _, o in world["routes"] if k != "custom"}
        world["routes"] = [[k, j, fams[k]] for k in sorted(fams)[:2] for j in (0, 1)] or world["routes"]
    ops = []
    if rng.random() < 0.7:
        ops.append(["build", [20.0] if rng.random() < 0.5 else None, [W.r3(rng.uniform(2, 60))] if rng.random() < 0.5 else W.draw_freq(rng, 4)])
        ops += [["text", rng.choice(W.TEXTS), W.draw_freq(rng, 4)] for _ in range(rng.randint(0, 3))]
    ops += [o for o in c14.draw_ops(rng, world, False, rng.randint(3, 8)) if o[0] != "abort"]
    if rng.random() < 0.6:
        sc = C.service_script(rng, rng.randint(1, 2))
        for r in sc:
            r["fun"] = "eval"
        ops += [["optimise", sc, len(sc) - 1]] + [["report", rng.choice(C.REPORTS)] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        ops.append(["export", rng.choice(["city", "citytext", "od", "routes"])])
    return {"world": world, "ops": ops, "knobs": C.draw_knobs(rng)}


def draw_variants(seed, tier):
    """Variant 0 is the plain one."""
    out = [{"hash": 0, "order": "fork", "gc": "on", "junk": 0, "clock": 0.0, "rand": 1, "env": {}}]
    orders = ["same", "reversed", "shuffled", "fork", "shuffled", "same", "reversed"]
    gcs = ["off", "eager", "between", "on", "between", "eager", "off"]
    for v in range(1, VARIANTS[tier]):
        r = vrng.derive(seed, ID, tier, "variant", v)
        out.append({"hash": r.randint(1, 4294967295), "order": orders[(v - 1) % 7], "gc": gcs[(v - 1 + (v - 1) // 7) % 7], "junk": r.randint(1, 1 << 30),
                    "clock": round(r.uniform(-4e8, 4e8), 3), "rand": r.randint(2, 1 << 30), "shuffle": r.randint(0, 1 << 30),
                    "flags": [[], ["-O"], [], ["-X", "dev"], []][(v + seed) % 5], "log": [None, "DEBUG", "CRITICAL"][(v + seed // 5) % 3], "cwd": [None, "/", None, "scratch"][(v + seed // 3) % 4],
                    "env": {"TZ": r.choice(["UTC", "America/Santiago", "Asia/Tokyo"]), "USER": r.choice(["root", "ana", "x"]), **({"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"} if v % 3 == 2 else {}), "COLUMNS": str(r.randint(20, 200)),
                            "VSIM_PAD": "x" * r.randint(0, 9000)}})
    return out


# ------------------------------------------------------------------ inside a variant process
def shift_clock(dt):
    for name in ("time", "monotonic", "perf_counter"):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: real() + dt)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: real() + int(dt * 1e9))


class _J:
    __slots__ = ("a", "b")


def junk(seed):
    """A heap with other contents and holes."""
    if not seed:
        return None
    r = random.Random(seed)
    keep = []
    for _ in range(r.randint(2000, 30000)):
        k = r.randrange(6)
        keep.append([None] * r.randint(0, 40) if k == 0 else {r.random(): 1} if k == 1 else _J() if k == 2 else bytearray(r.randint(1, 600)) if k == 3 else
                    object() if k == 4 else {j for j in range(r.randint(0, 9))})
    r.shuffle(keep)
    del keep[:len(keep) // 2]
    return keep


def sort_choice(c):
    return sorted([x[0], x[1], x[2], sorted(x[3])] for x in c)


def scenario(plan, scratch, engine, between):
    """Transcript of one scenario in this process."""
    import gc
    from vsim import fsim
    from vsim import worlds as W
    from vsim import session as S
    os.makedirs(scratch, exist_ok=True)
    env = engine.Env(scratch)
    env.fs = fsim.FS(scratch, env)
    fsim.install(env.fs)
    env.fs.configure(plan["knobs"])
    out = []
    s = S.Session(plan["world"], env, "s")
    out.append(["ok", [W.city_obs(s.graph)["nodes"], [W.route_obs(r) for r in s.net.get_routes()], W.city_obs(s.graph)["zones"], order(s)]])
    for op in plan["ops"]:
        if between:
            gc.collect()
        g = s.step(op)
        if op[0] == "build" and g[0] == "ok":
            g[1][2] = sort_choice(g[1][2])
        out.append(g)
    out.append(["ok", order(s)])
    return out


def order(s):
    """What the objects list, in the order they list it."""
    return [[m.name for m in s.net.get_modes()], [r.id for r in s.net.get_routes()], [(o, list(row)) for o, row in s.demand.get_matrix().items()]]


def variant_main(cfgpath):
    """run.py c13-variant CFG: run the scenarios as one variant and store the transcripts."""
    with open(cfgpath) as f:
        cfg = json.load(f)
    v = cfg["variant"]
    keep = [junk(v["junk"])]
    shift_clock(v["clock"])
    import gc
    import shutil
    from vsim import engine
    if v.get("log"):
        import logging
        logging.basicConfig(stream=open(os.devnull, "w"), level=v["log"])
    if v["gc"] == "off":
        gc.disable()
    engine.prepare()
    import numpy as np
    if v["gc"] == "eager":
        gc.set_threshold(60, 2, 2)
    order = list(range(len(cfg["plans"])))
    if v["order"] == "reversed":
        order.reverse()
    elif v["order"] == "shuffled":
        random.Random(v["shuffle"]).shuffle(order)
    if cfg.get("order"):
        order = cfg["order"]
    random.seed(v["rand"])
    np.random.seed(v["rand"] % (1 << 32))
    keep.append(junk(v["junk"] and v["junk"] + 1))
    base = cfgpath + ".d"
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    res = {}

    def one(i):
        try:
            return ("ok", scenario(cfg["plans"][i], os.path.join(base, str(i)), engine, v["gc"] == "between"))
        except BaseException as e:      # noqa
            import traceback
            return ("viol" if engine.in_package(e) or engine.malformed(e) else "err", "%s: %s" % (type(e).__name__, e), "".join(traceback.format_exception(e))[-2500:])
    for i in order:
        if v["order"] == "fork":
            from vsim.props import common as C
            random.seed(v["rand"] + i)
            res[i] = C.alone(lambda: one(i))
        else:
            res[i] = one(i)
        shutil.rmtree(os.path.join(base, str(i)), ignore_errors=True)
        if v["junk"] and i % 5 == 0:
            keep.append(junk(v["junk"] + 2 + i))
            if len(keep) > 6:
                del keep[2]
    from vsim import fsim
    fsim.real_write(cfgpath + ".out", pickle.dumps((order, res)))
    return 0


# ------------------------------------------------------------------ outside
def spawn(engine, variant, plans, tag, order=None):
    cfg = os.path.join(engine.SCRATCH, "c13-%s.json" % tag)
    with open(cfg, "w") as f:
        json.dump({"variant": variant, "plans": plans, "order": order}, f)
    env = dict(os.environ)
    env.update(variant["env"])
    env["PYTHONHASHSEED"] = str(variant["hash"])
    p = subprocess.Popen([sys.executable, "-s"] + variant.get("flags", []) + [os.path.join(engine.HERE, "run.py"), "c13-variant", cfg], env=env, cwd={None: None, "scratch": engine.SCRATCH}.get(variant.get("cwd"), variant.get("cwd")), stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True)
    return p, cfg


def gather(procs, deadline):
    out = []
    for p, cfg in procs:
        try:
            _, err = p.communicate(timeout=max(1.0, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out.append((None, "ran out of time"))
            continue
        try:
            with open(cfg + ".out", "rb") as f:
                out.append((pickle.loads(f.read()), None))
        except Exception:
            out.append((None, "variant process ended with %r: %s" % (p.returncode, err[-1500:])))
        for q in (cfg, cfg + ".out"):
            try:
                os.unlink(q)
            except OSError:
                pass
    return out


def compare(a, b, plan):
    """None, or (class, message)."""
    from vsim import worlds as W
    if a[0] != b[0]:
        return ("process-dependent", "one process ended the scenario with %s, another with %s" % (str(a[1])[:200] if a[0] != "ok" else "results", str(b[1])[:200] if b[0] != "ok" else "results"))
    if a[0] != "ok":
        return None if a[1] == b[1] else ("process-dependent", "%s / %s" % (a[1], b[1]))
    for j, (x, y) in enumerate(zip(a[1], b[1])):
        exact = 0 < j <= len(plan["ops"]) and plan["ops"][j - 1][0] == "export"
        d = W.diff(x, y, "", 1e-12 if exact else 1e-9, 0 if exact else 1e-9)
        if d:
            op = ["set-up"] if j == 0 else plan["ops"][j - 1] if j <= len(plan["ops"]) else ["final listing"]
            return ("process-dependent", "operation %d %r gave different results in two processes: %s" % (j, op[:2], str(d)[:900]))
    return None


def custom_check(engine, tier, seed, n, t0, deadline):
    import collections
    import hashlib
    import types
    prop = sys.modules[__name__]
    plans = [engine.make_plan(prop, seed, tier, i) for i in range(n)]
    variants = draw_variants(seed, tier)
    tb = time.monotonic()
    got = []
    for s in range(0, len(variants), engine.WORKERS):
        procs = [spawn(engine, v, plans, "v%d" % (s + k)) for k, v in enumerate(variants[s:s + engine.WORKERS])]
        got += gather(procs, deadline)
    wall = time.monotonic() - tb
    bad = [(k, e) for k, (r, e) in enumerate(got) if r is None]
    if bad:
        print("HARNESS-ERROR: variant %d: %s" % bad[0], file=sys.stderr)
        return 2
    results = {}
    viols = []
    for i, plan in enumerate(plans):
        a = got[0][0][1][i]
        probes = collections.Counter()
        states = set()
        viol = None
        if a[0] == "err":
            print("HARNESS-ERROR: scenario %d: %s" % (i, a[2]), file=sys.stderr)
            return 2
        for k in range(len(variants)):
            b = got[k][0][1][i]
            if b[0] == "err":
                print("HARNESS-ERROR: scenario %d variant %d: %s" % (i, k, b[2]), file=sys.stderr)
                return 2
            v = variants[k]
            if k:
                probes["hash_seed"] += 1
                probes["heap_layout"] += 1
                probes["clock_shift"] += 1
                probes["random_state"] += 1
                probes["logging"] += bool(v["log"])
                probes["interpreter_flags"] += bool(v["flags"])
                probes["working_directory"] += bool(v["cwd"])
                probes["locale"] += "LC_ALL" in v["env"]
                probes[{"off": "gc_off", "eager": "gc_eager", "between": "gc_between_operations", "on": "gc_normal"}[v["gc"]]] += 1
                probes[{"same": "history_same_order", "reversed": "history_reversed", "shuffled": "history_shuffled", "fork": "history_none"}[v["order"]]] += 1
                c = compare(a, b, plan)
                if c and viol is None:
                    viol = (c[0], c[1], k)
        if a[0] == "viol" and viol is None:
            viol = ("unexpected-exception", a[1], 0)
        if viol:
            viols.append(i)
        key = [(op[0], r[0]) for op, r in zip(plan["ops"], a[1][1:])] if a[0] == "ok" else "exc"
        states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])
        results[i] = dict(viol=viol, error=None, faults=dict(probes), probes=dict(collections.Counter("op_" + op[0] for op in plan["ops"])), states=states,
                          digest=hashlib.sha256(repr(a[1]).encode()).hexdigest(), nontrivial=len(plan["ops"]) > 2 and a[0] == "ok", steps=len(plan["ops"]) * len(variants),
                          events=[str(r)[:160] for r in a[1][:6]] if a[0] == "ok" else [], wall=wall / max(1, n))
    engine.write_evidence(types.SimpleNamespace(**{k: getattr(prop, k) for k in dir(prop)}), tier, seed, results, viols, wall, time.monotonic() - t0, 0, 0, [],
                          {"process_variants": variants, "executions": n * len(variants), "runs_per_hour": round(n * len(variants) / max(wall, 1e-9) * 3600)})
    if viols:
        i = viols[0]
        return report(engine, tier, seed, i, results[i]["viol"], plans, variants, got, deadline)
    miss = [q for q in MUST_HIT if not sum(r["faults"].get(q, 0) for r in results.values())]
    if miss and n == RUNS[tier]:
        print("HARNESS-ERROR: nothing exercised %s" % miss, file=sys.stderr)
        return 4
    print("held: property=%s scenarios=%d variants=%d wall=%.1fs" % (ID, n, len(variants), time.monotonic() - t0))
    return 0


def attempt(engine, doc, tag, deadline):
    """Run the two processes of a replay document; the comparison's outcome."""
    plans = doc["history"] + [doc["plan"]]
    last = len(plans) - 1
    a = spawn(engine, dict(doc["variants"][0], order="fork"), plans, tag + "a", [last])
    b = spawn(engine, doc["variants"][1], plans, tag + "b", list(range(len(plans))))
    return a, b


def judge(pair, plan):
    (ra, ea), (rb, eb) = pair
    if ra is None or rb is None:
        return ("harness", ea or eb)
    a, b = list(ra[1].values())[-1], rb[1][max(rb[1])]
    if a[0] == "viol" and b[0] == "viol":
        return ("unexpected-exception", a[1])
    return compare(a, b, plan)


def report(engine, tier, seed, i, viol, plans, variants, got, deadline):
    cls, msg, k = viol
    print("violation at scenario %d: %s: %s" % (i, cls, msg), flush=True)
    order = got[k][0][0]
    before = order[:order.index(i)] if variants[k]["order"] != "fork" else []
    base = {"property": ID, "seed": seed, "tier": tier, "index": i, "class": cls, "message": msg, "plan": plans[i],
            "variants": [variants[0], variants[k] if k else variants[1]], "history": []}
    t_end = time.monotonic() + min(150.0, max(5.0, deadline - time.monotonic() - 30))
    tried = 0
    half = engine.WORKERS // 2

    def first_hit(docs):
        nonlocal tried
        for s in range(0, len(docs), half):
            if time.monotonic() > t_end:
                return None
            part = docs[s:s + half]
            procs = [attempt(engine, d, "t%d" % j, deadline) for j, d in enumerate(part)]
            outs = gather([p for ab in procs for p in ab], deadline)
            tried += len(part)
            for j, d in enumerate(part):
                r = judge(outs[2 * j:2 * j + 2], d["plan"])
                if r is not None and r[0] == cls:
                    return dict(d, message=r[1])
        return None
    # alone; with other variants; with the history that preceded it
    others = [base] + [dict(base, variants=[variants[0], v]) for v in variants[1:] if v is not base["variants"][1]]
    hist = [dict(base, history=[plans[j] for j in before[-m:]]) for m in (1, 4, 16, 64, len(before)) if 0 < m <= len(before)]
    best = first_hit(others) or first_hit(hist)
    note = "minimised"
    if best is None:
        best, note = dict(base, history=[plans[j] for j in before]), "as generated; did not recur in the time left"
    else:
        progress = True
        while progress and time.monotonic() < t_end:
            progress = False
            cand = []
            for field in ("history", "ops"):
                lst = best["history"] if field == "history" else best["plan"]["ops"]
                size = len(lst)
                chunk = size
                while chunk >= 1:
                    for s in range(0, size, chunk):
                        d = copy.deepcopy(best)
                        tgt = d["history"] if field == "history" else d["plan"]["ops"]
                        del tgt[s:s + chunk]
                        cand.append(d)
                    chunk //= 2
            h = first_hit(cand)
            if h is not None:
                best, progress = h, True
    os.makedirs(os.path.join(engine.HERE, "replays"), exist_ok=True)
    rp = os.path.join(engine.HERE, "replays", "%s-%s-%d-%d.json" % (ID, tier, seed, i))
    best.update(note=note, shrink_runs=tried)
    with open(rp, "w") as f:
        json.dump(best, f, indent=1)
    print("seed=%d scenario=%d minimised after %d attempts (%s)" % (seed, i, tried, note))
    print("VIOLATION property=%s replay=%s" % (ID, rp), flush=True)
    return 1


def custom_replay(engine, doc):
    dl = time.monotonic() + 300
    pair = gather(list(attempt(engine, doc, "replay", dl)), dl)
    r = judge(pair, doc["plan"])
    if r is None:
        print("no violation")
        return 0
    print("%s: %s" % r)
    if r[0] == "harness":
        return 2
    print("VIOLATION property=%s replay=%s" % (ID, doc.get("path", "given")))
    return 1 if r[0] == doc["class"] else 5
