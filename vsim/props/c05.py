"""C05: network edit histories against a reference model."""
import csv
import io

from vsim import worlds as W, fsim
from vsim.props import common as C
from sidermit.publictransportsystem import TransportNetwork, Route

ID = "C05"
RUNS = {"quick": 14000, "thorough": 100000}
RULE = "distinct event logs of runs with at least one accepted and one rejected operation"
STATE_MEASURE = "hash of (operation, outcome, number of routes per mode, modes held)"
REAL = ["sidermit.publictransportsystem (network, mode)", "sidermit.city.graph"]
STUB = ["raw file I/O - simulated storage"]
ASSUMPTIONS = ["routes are made by Route(...) or by the predefined route makers and not changed after being added"]
MUST_HIT = ["rejected", "mode_removed_with_routes", "no_street_i", "no_street_r", "duplicate", "third_mode", "same_name", "no_single_line", "file", "ids_alike", "two_networks", "shared_route"]
SHRINK = [["steps"]]

# equal texts, different ids; texts that hold one another; an id a family may use
IDS = ["X0", "X1", "X2", "X3", 1, "1", 10, "10", 0, "0", "", "x1", "X", "X 1", "F_bus_1", "R_bus_1", "ñ"]


def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    modes = []
    for j in range(rng.randint(2, 4)):
        m = W.draw_mode(rng, rng.choice(["bus", "metro", "tram", "bus"]))
        m["d"] = rng.choice([1, 1, 2, 4])
        modes.append(m)
    plan = {"city": {"n": n, "l": 10, "g": 0.5, "p": 2}, "modes": modes, "knobs": C.draw_knobs(rng), "steps": []}
    for _ in range(rng.randint(5, 25 if tier == "quick" else 45)):
        k = rng.random()
        m = rng.randrange(len(modes))
        if k < 0.22:
            plan["steps"].append(["family", W.draw_routes(rng, n, len(modes), 2)[-1][:1] + [m, {"short": rng.random() < 0.3, "express": rng.random() < 0.3, "jump": 1}]])
        elif k < 0.5:
            ln = rng.choice([2, 3, 4, 4, 6, 8, 9])
            plan["steps"].append(["custom", m, rng.choice(IDS), rng.choice(["walk", "walk", "walk", "badi", "badr", "bad", "same"]),
                                  [rng.randint(0, 99) for _ in range(ln)], rng.random() < 0.4, [rng.randint(0, 99) for _ in range(ln)]])
        elif k < 0.62:
            plan["steps"].append(["rmroute", rng.randint(0, 30), rng.random() < 0.2])
        elif k < 0.72:
            plan["steps"].append(["rmmode", m])
        elif k < 0.84:
            plan["steps"].append(["addmode", m])
        elif k < 0.9:
            plan["steps"].append(["file"])
        elif k < 0.95:
            plan["steps"].append(["junk", rng.choice(["route", "mode", "get"])])
        else:
            plan["steps"].append(["readd", rng.randint(0, 30)])
    if rng.random() < 0.3:
        plan["two"] = True
        for _ in range(rng.randint(1, 5)):
            plan["steps"].insert(rng.randint(1, len(plan["steps"])), ["switch", rng.random() < 0.6, rng.randint(0, 30)])
    return plan


def walk(adj, seed, length):
    """A simple path of streets chosen by the seeds."""
    nodes = sorted(adj)
    cur = nodes[seed[0] % len(nodes)]
    out = [cur]
    for s in seed[1:length]:
        nx = [b for b in adj[cur] if b not in out]
        if not nx:
            break
        cur = nx[s % len(nx)]
        out.append(cur)
    return out


def broken(seq, ids, r):
    """The sequence with a node put in, left out or moved: mostly no path of streets."""
    seq = list(seq)
    out = [x for x in ids if x not in seq]
    at = r[0] % (len(seq) - 1)
    k = r[-1] % 3
    if k == 1 and len(seq) > 2:
        del seq[max(1, at)]
    elif k == 2 and len(seq) > 3:
        i, j = 1 + at % (len(seq) - 2), 1 + r[1] % (len(seq) - 2)
        seq[i], seq[j] = seq[j], seq[i]
    elif out:
        seq.insert(at + 1, out[r[1] % len(out)])
    return seq


def execute(plan, env):
    env.fs.configure(plan["knobs"])
    g = W.build_city(plan["city"])
    city0 = W.city_obs(g)
    adj = {}
    for a, b in city0["edges"]:
        adj.setdefault(a, []).append(b)
    streets = set(city0["edges"])
    ids = sorted(adj)
    modes = [W.build_mode(m) for m in plan["modes"]]
    net = TransportNetwork(g)
    routes = []      # model: list of Route objects accepted
    held = []        # model: modes held
    graveyard = []
    ok = rej = 0
    spare = [TransportNetwork(g), [], [], []]      # a second network of the city

    def swap():
        nonlocal net, routes, held, graveyard
        net, spare[0] = spare[0], net
        routes, spare[1] = spare[1], routes
        held, spare[2] = spare[2], held
        graveyard, spare[3] = spare[3], graveyard

    def on_streets(seq):
        return all((a, b) in streets for a, b in zip(seq, seq[1:]))

    def mode_ok(m):
        if any(x is m for x in held):
            return True
        if any(x.name == m.name for x in held):
            env.probe("same_name")
            return False
        new = [m] + held
        if len(new) > 2:
            env.probe("third_mode")
            return False
        if len(new) == 2 and not any(x.d == 1 for x in new):
            env.probe("no_single_line")
            return False
        return True

    def route_ok(r):
        si, sr = on_streets(r.nodes_sequence_i), on_streets(r.nodes_sequence_r)
        if not si:
            env.probe("no_street_i")
        elif not sr:
            env.probe("no_street_r")
        if not (si and sr):
            return False
        if any(x.id == r.id for x in routes):
            env.probe("duplicate")
            return False
        return mode_ok(r.mode)

    def check(what):
        got = net.get_routes()
        env.check([r.id for r in got] == [r.id for r in routes], "routes", lambda: "after %s: routes %r, expected %r" % (what, [r.id for r in got], [r.id for r in routes]))
        for a, b in zip(got, routes):
            env.check(a is b or W.route_obs(a) == W.route_obs(b), "route-changed", lambda: "after %s: route %r differs from the one added" % (what, b.id))
            env.check(on_streets(a.nodes_sequence_i) and on_streets(a.nodes_sequence_r), "off-street", lambda: "after %s: route %r leaves the streets" % (what, a.id))
        env.check(len({r.id for r in got}) == len(got), "duplicate-id", lambda: "after %s: duplicated route id" % what)
        gm = net.get_modes()
        env.check(len(gm) == len(held) and all(any(x is y for y in held) for x in gm), "modes", lambda: "after %s: modes %r, expected %r" % (what, [m.name for m in gm], [m.name for m in held]))
        env.check(len(gm) <= 2 and len({m.name for m in gm}) == len(gm), "modes-invalid", lambda: "after %s: modes %r" % (what, [m.name for m in gm]))
        env.check(len(gm) < 2 or any(m.d == 1 for m in gm), "modes-lines", lambda: "after %s: two modes and none has one line" % what)
        for r in got:
            env.check(any(r.mode is m for m in gm), "orphan-route", lambda: "after %s: the mode of route %r is not in the network" % (what, r.id))
        if len({str(r.id) for r in routes}) < len(routes):
            env.probe("ids_alike")
        for r in routes:
            env.check(net.get_route(r.id) is r or W.route_obs(net.get_route(r.id)) == W.route_obs(r), "lookup", lambda: "after %s: looking up %r finds another route" % (what, r.id))
        live = {r.id for r in routes}
        for r in graveyard[-6:]:
            if r.id in live:
                continue
            o = W.outcome(net.get_route, r.id)
            env.check(o[0] == "exc", "ghost", lambda: "after %s: route %r is still found though it is not in the network" % (what, r.id))

    def add(r, what):
        nonlocal ok, rej
        want = route_ok(r)
        try:
            net.add_route(r)
            got = True
        except Exception as e:
            got = False
            env.log(what, r.id, "rejected", type(e).__name__)
        if got:
            env.log(what, r.id, "added")
        env.check(got == want, "accepted-invalid" if got else "rejected-valid", lambda: "%s of route %r %s: nodes %r / %r, mode %s" % (
            what, r.id, "accepted" if got else "rejected", r.nodes_sequence_i, r.nodes_sequence_r, r.mode.name))
        if got:
            if not any(x is r.mode for x in held):
                held.append(r.mode)
            routes.append(r)
            ok += 1
        else:
            rej += 1
            graveyard.append(r)
            env.probe("rejected")

    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        k = st[0]
        if k == "family":
            o = W.outcome(W.family_routes, net, g, st[1] if st[1][0] != "custom" else ["feeder"] + st[1][1:], modes)
            if o[0] == "ok":
                for r in o[1]:
                    add(r, "family")
                    check("adding a %s route" % st[1][0])
            else:
                env.log("family", st[1][0], o[1])
        elif k == "custom":
            p = walk(adj, st[4], len(st[4]))
            if len(p) < 2:
                continue
            back = p[::-1]
            if st[3] == "same":
                pass
            if st[3] in ("badi", "bad"):
                p = broken(p, ids, st[6])
            if st[3] in ("badr", "bad"):
                back = broken(back, ids, st[6][::-1])
            elif st[5]:
                alt = walk(adj, [ids.index(back[0])] + st[6][1:], 4)
                if alt[-1] == back[-1]:
                    back = alt

            def j(x):
                return ",".join(map(str, x))
            stop_i = [p[0], p[-1]] if st[6][0] % 3 == 0 else p
            r = Route(st[2], modes[st[1]], j(p), j(back), j(stop_i), j(back))
            add(r, "custom")
        elif k == "rmroute":
            if st[2] or not routes:
                o = W.outcome(net.remove_route, "nope%d" % st[1])
                env.check(o[0] == "exc", "removed-unknown", "removing an unknown route id was accepted")
                env.log("rmroute unknown", o[1])
                rej += 1
            else:
                r = routes[st[1] % len(routes)]
                net.remove_route(r.id)
                routes.remove(r)
                graveyard.append(r)
                ok += 1
                env.log("rmroute", r.id)
        elif k == "rmmode":
            m = modes[st[1]]
            dead = [r for r in routes if r.mode is m]
            if len(dead) > 1:
                env.probe("mode_removed_with_routes")
            o = W.outcome(net.remove_transport_mode, m)
            known = any(x is m for x in held)
            env.check(o[0] == "ok" or not known, "mode-not-removed", lambda: "removing mode %s raised %s" % (m.name, o[1]))
            if known:
                held[:] = [x for x in held if x is not m]
                routes[:] = [r for r in routes if r.mode is not m]
                graveyard.extend(dead)
                ok += 1
            env.log("rmmode", m.name, len(dead))
        elif k == "addmode":
            m = modes[st[1]]
            want = mode_ok(m)
            o = W.outcome(net.add_transport_mode, m)
            env.check((o[0] == "ok") == want, "mode-accepted" if o[0] == "ok" else "mode-rejected", lambda: "adding mode %s (d=%s) to %r: %r" % (m.name, m.d, [(x.name, x.d) for x in held], o[0]))
            if want and not any(x is m for x in held):
                held.append(m)
            ok += want
            rej += not want
            env.log("addmode", m.name, want)
        elif k == "file":
            p = env.path("routes.csv")
            net.routes_to_file(p)
            rows = list(csv.reader(io.StringIO(fsim.real_bytes(p).decode("utf-8")), delimiter=";"))

            def s(x):
                return ",".join(str(int(a)) for a in x)
            want = [[str(r.id), r.mode.name, s(r.nodes_sequence_i), s(r.nodes_sequence_r), s(r.stops_sequence_i), s(r.stops_sequence_r)] for r in routes]
            got = rows[1:]
            env.check(got == want, "file", lambda: "the route file lists %r, the network holds %r" % (got[:3], want[:3]))
            env.probe("file")
            env.log("file", len(got))
        elif k == "junk":
            o = W.outcome({"route": net.add_route, "mode": net.add_transport_mode, "get": net.get_route}[st[1]], "junk-%d" % si)
            env.check(o[0] == "exc", "junk-accepted", "adding or finding junk was accepted")
            rej += 1
        elif k == "switch":
            swap()
            env.probe("two_networks")
            if st[1] and spare[1]:
                # a route of the one network is put into the other as well
                add(spare[1][st[2] % len(spare[1])], "share")
                env.probe("shared_route")
        elif k == "readd":
            if graveyard:
                add(graveyard[st[1] % len(graveyard)], "readd")
        check(k)
        if plan.get("two"):
            swap()
            check("%s in another network" % k)
            swap()
        env.state(k, sorted((m.name, sum(r.mode is m for r in routes)) for m in held))
    env.check(W.city_obs(g) == city0, "city-changed", "network operations changed the city")
    env.nontrivial = ok > 0 and rej > 0
