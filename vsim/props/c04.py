"""C04: OD edit histories against a dictionary."""
from vsim import worlds as W, fsim
from vsim.props import common as C
from sidermit.city import Demand

ID = "C04"
RUNS = {"quick": 10000, "thorough": 80000}
RULE = "distinct event logs of runs with at least one accepted and one rejected operation"
STATE_MEASURE = "hash of (operation, outcome, zones, sign pattern of the matrix)"
REAL = ["sidermit.city.demand (whole)", "sidermit.city.graph", "pandas", "CPython I/O layers"]
STUB = ["raw file I/O - simulated storage"]
ASSUMPTIONS = ["trips up to 1e18 per cell; the total is compared with the sum of the matrix up to 1e-9 of it"]
MUST_HIT = ["rejected", "reloaded", "fs_read_eio", "bad_matrix", "zero_edit", "repeat_edit", "big_matrix", "switched", "built_again"]
SHRINK = [["steps"]]


def draw_val(rng):
    return rng.choice([0, 0.0, 1, 7, rng.randint(0, 5000), rng.uniform(0, 100), rng.uniform(0, 1e6), 1e-9, 0.1, 1e6, 3.3333333333333335]
                      + [10.0 ** rng.randint(-12, 18)] * (rng.random() < 0.3))


def gen(rng, tier, i):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if rng.random() < 0.03:
        n = rng.choice([8, 20, 25, 50])
    city = {"n": n, "l": 10, "g": 0.5, "p": 2} if rng.random() < 0.7 else None
    plan = {"city": city, "hand": C.draw_hand(rng) if city is None else None, "knobs": C.draw_knobs(rng), "steps": []}
    pool = [[W.r3(rng.uniform(0, 1e5)), W.r3(rng.random()), W.r3(rng.uniform(0, 0.5)), W.r3(rng.uniform(0, 0.45))] for _ in range(2)]
    for _ in range(rng.randint(6, 30 if tier == "quick" else 60)):
        k = rng.random()
        a, b = rng.randint(0, 110), rng.randint(0, 110)
        if rng.random() < 0.3:
            a, b = rng.randint(0, 2), rng.randint(0, 2)        # the same few cells again
        if k < 0.5:
            plan["steps"].append(["set", a, b, draw_val(rng)])
        elif k < 0.58:
            plan["steps"].append(["neg", a, b, -draw_val(rng) - rng.choice([1e-9, 1, 0.5])])
        elif k < 0.66:
            plan["steps"].append(["unknown", rng.choice(["o", "d", "od"]), a, b, rng.choice([draw_val(rng), -1.0])])
        elif k < 0.74:
            plan["steps"].append(["save", rng.randrange(2)])
        elif k < 0.84:
            f = None
            if rng.random() < 0.25:
                f = [{"op": "read", "nth": rng.choice([0, 0, 1, rng.randint(0, 30)]), "kind": "eio", "sticky": rng.random() < 0.5}]
            plan["steps"].append(["load", rng.randrange(2), f])
        elif k < 0.89:
            plan["steps"].append(["content", [draw_val(rng) for _ in range(rng.randint(1, 7))],
                                  rng.choice([None, None, None, "neg", "rows", "cols", "fewrows", "fewcols"]), rng.random()])
        elif k < 0.93:
            plan["steps"].append(["params"] + rng.choice(pool))
        elif k < 0.95:
            plan["steps"].append(["switch", rng.randrange(3)])
        elif k < 0.98:
            plan["steps"].append(["badfile", rng.choice(["neg", "unknown", "cols", "word", "id"]), W.r3(rng.random())])
        else:
            plan["steps"].append(["fresh"])
    return plan


def execute(plan, env):
    fs = env.fs
    fs.configure(plan["knobs"])
    from sidermit.city import Graph
    if plan["city"]:
        g = W.build_city(plan["city"])
    else:
        p = env.path("hand.pajek")
        fsim.real_write(p, C.hand_text(plan["hand"]).encode("utf-8"))
        g = Graph.build_from_file(p)
    ids = [int(n.id) for n in g.get_nodes()]
    city0 = W.city_obs(g)

    def zero():
        return {(o, d): 0.0 for o in ids for d in ids}
    dem = Demand(g)
    model = zero()
    files = {}
    ok = rej = 0
    others = []       # matrices built before for the same city and set aside, each with its own history
    built = {}
    sheet = []

    def aside():
        others.append((dem, model))
        del others[:-3]

    def check(what, obj=None, mod=None):
        obj = dem if obj is None else obj
        mod = model if mod is None else mod
        o = W.demand_obs(obj)
        env.check(set(o["cells"]) == set(mod), "pairs", lambda: "after %s: %d origin-destination pairs, the city has %d (%r)" % (
            what, len(o["cells"]), len(mod), sorted(set(o["cells"]) ^ set(mod))[:4]))
        for k in mod:
            env.check(abs(o["cells"][k] - mod[k]) <= 1e-12 * abs(mod[k]), "cell", lambda: "after %s: cell %r is %r, last accepted value %r" % (what, k, o["cells"][k], mod[k]))
        s = sum(mod.values())
        env.check(abs(o["total"] - s) <= 1e-9 * s, "total", lambda: "after %s: total trips %r, the matrix sums to %r" % (what, o["total"], s))

    def reject(what, fn):
        try:
            fn()
        except Exception as e:
            env.log(what, "rejected", type(e).__name__)
            env.probe("rejected")
            return
        env.fail("accepted-invalid", "%s was accepted" % what)

    check("creation")
    if len(ids) > 40:
        env.probe("big_matrix")
    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        k = st[0]
        if k == "set":
            o, d = ids[st[1] % len(ids)], ids[st[2] % len(ids)]
            if model[(o, d)] and st[3] == 0:
                env.probe("zero_edit")
            if model[(o, d)]:
                env.probe("repeat_edit")
            dem.change_vij(o, d, st[3])
            model[(o, d)] = float(st[3])
            ok += 1
            env.log("set", o, d, st[3])
        elif k == "neg":
            o, d = ids[st[1] % len(ids)], ids[st[2] % len(ids)]
            reject("negative trips", lambda: dem.change_vij(o, d, st[3]))
            rej += 1
        elif k == "unknown":
            bad = max(ids) + 1 + st[2] % 3
            o = bad if "o" in st[1] else ids[st[2] % len(ids)]
            d = bad + 1 if "d" in st[1] else ids[st[3] % len(ids)]
            reject("unknown node", lambda: dem.change_vij(o, d, st[4]))
            rej += 1
        elif k == "save":
            before = W.demand_obs(dem)
            dem.matrix_to_file(env.path("od%d.csv" % st[1]))
            env.check(W.demand_obs(dem) == before, "save-changed-demand", "saving changed the matrix in memory")
            files[st[1]] = dict(model)
            env.log("save", st[1])
        elif k == "load":
            if st[1] not in files:
                continue
            fs.arm(st[2])
            new = err = None
            try:
                new = Demand.build_from_file(g, env.path("od%d.csv" % st[1]))
            except OSError as e:
                err = e
            fired = [f["kind"] for f in fs.fired]
            fs.disarm()
            env.log("load", st[1], "raised" if err else "ok", fired)
            if err is not None:
                env.check("eio" in fired, "load-failed", "loading a saved matrix raised %r" % err)
            else:
                check("reloading", new, files[st[1]])
                env.probe("reloaded")
                aside()
                dem = new
                model = dict(files[st[1]])
                ok += 1
        elif k == "content":
            m = [[float(st[1][(i * len(ids) + j) % len(st[1])]) for j in range(len(ids))] for i in range(len(ids))]
            if st[2] is None:
                if sheet and st[3] < 0.5:
                    # the caller's own sheet, filled in anew
                    for row, new in zip(sheet[0], m):
                        row[:] = new
                    m = sheet[0]
                    env.probe("same_sheet")
                sheet[:] = [m]
                aside()
                dem = Demand.build_from_content(g, m)
                model = {(ids[i], ids[j]): m[i][j] for i in range(len(ids)) for j in range(len(ids))}
                ok += 1
                env.log("content")
            else:
                i = int(st[3] * len(ids)) % len(ids)
                if st[2] == "neg":
                    m[i][(i * 3) % len(ids)] = -1.0
                elif st[2] == "fewrows":
                    m.pop(i)
                elif st[2] == "fewcols":
                    m[i].pop(i)
                elif st[2] == "rows":
                    m.append(list(m[0]))
                else:
                    m[i] = m[i] + [0.0]
                env.probe("bad_matrix")
                reject("bad matrix (%s)" % st[2], lambda: Demand.build_from_content(g, m))
                rej += 1
        elif k == "params":
            if ids and len(ids) >= 3:
                new = Demand.build_from_parameters(g, st[1], st[2], st[3], st[4])
                o = W.demand_obs(new)
                aside()
                dem = new
                model = dict(o["cells"])
                if tuple(st[1:]) in built:
                    env.probe("built_again")
                    env.check(model == built[tuple(st[1:])], "cell", lambda: "building from %r again gave other trips: %s" % (
                        st[1:], [(c, model[c], built[tuple(st[1:])].get(c)) for c in model if model[c] != built[tuple(st[1:])].get(c)][:3]))
                built[tuple(st[1:])] = dict(model)
                env.check(all(v >= 0 for v in model.values()), "negative-cell", "parametric demand has a negative cell")
                ok += 1
                env.log("params")
        elif k == "badfile":
            rows = [[o, d, 1.0] for o in ids for d in ids]
            i = int(st[2] * len(rows)) % len(rows)
            bad = {"neg": [rows[i][0], rows[i][1], -2.0], "unknown": [max(ids) + 5, rows[i][1], 1.0], "cols": [1, 2], "word": [rows[i][0], rows[i][1], "many"],
                   "id": ["x", rows[i][1], 1.0]}[st[1]]
            rows[i] = bad
            p = env.path("bad%d.csv" % si)
            fsim.real_write(p, ("origin,destination,vij\n" + "".join(",".join(map(str, r)) + "\n" for r in rows)).encode())
            reject("bad OD file (%s)" % st[1], lambda: Demand.build_from_file(g, p))
            rej += 1
        elif k == "switch":
            if not others:
                continue
            i = st[1] % len(others)
            other = others[i]
            others[i] = (dem, model)
            dem, model = other
            env.probe("switched")
            env.log("switch")
        else:
            aside()
            dem = Demand(g)
            model = zero()
            env.log("fresh")
        check(k)
        if len(ids) < 40 and (si % 3 == 0 or si == len(plan["steps"]) - 1):
            for a, b in others:
                check("%s on another matrix of the city" % k, a, b)
        env.state(k, len(ids), len([1 for v in model.values() if v > 0]), k in ("neg", "unknown"))
    env.check(W.city_obs(g) == city0, "city-changed", "demand operations changed the city")
    env.nontrivial = ok > 0 and rej > 0
