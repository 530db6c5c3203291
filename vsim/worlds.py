"""Worlds: JSON descriptions of a city, demand, modes, passengers and network,
how to draw one, how to build it through the public API, and how to observe it."""
import re
import math
from collections import defaultdict

from sidermit.city import Graph, Demand, CBD, Periphery, Subcenter
from sidermit.publictransportsystem import TransportNetwork, TransportMode, Passenger, Route, RouteType
from sidermit.optimization.optimizer import Optimizer
from sidermit.optimization.preoptimization import Assignment, Hyperpath

RTOL = 1e-9


def r3(x):
    return float("%.4g" % x)


# ------------------------------------------------------------------ drawing
def draw_city(rng, nmax=3, nmin=1, sym=0.4, weights=None):
    if weights:
        from vsim.rng import pick_weighted
        n = pick_weighted(rng, weights)
    else:
        n = rng.randint(nmin, nmax)
    c = {"n": n, "l": r3(rng.uniform(0.5, 20)), "g": r3(rng.choice([0, 0.5, 0.85, rng.uniform(0.05, 2)])),
         "p": r3(rng.choice([2, 1, rng.uniform(0.1, 4)]))}
    if n and rng.random() > sym:
        if rng.random() < 0.5:
            c["Gi"] = [r3(rng.uniform(0.4, 1.6)) for _ in range(n)]
        if rng.random() < 0.5:
            c["Hi"] = [r3(rng.uniform(0.5, 1.8)) for _ in range(n)]
        if rng.random() < 0.5:
            a = [r3(rng.uniform(0, 360)) for _ in range(n)]
            if rng.random() < 0.5:
                a.sort()
            c["angles"] = a
        if rng.random() < 0.5:
            c["etha"] = rng.choice([0, 0.25, 0.5, 1, r3(rng.uniform(0, 1))])
            c["etha_zone"] = rng.randint(1, n)
    return c


def draw_mode(rng, name, d1=False):
    d = 1 if d1 else rng.choice([1, 1, 2, 3, 4])
    return {"name": name, "bya": rng.choice([0, 1]), "co": r3(rng.uniform(1, 90)), "c1": r3(rng.uniform(0, 0.5)),
            "c2": r3(rng.choice([0, rng.uniform(1, 900)])), "v": r3(rng.uniform(10, 60)),
            "t": r3(rng.choice([2.5, 0.33, rng.uniform(0, 5)])), "fmax": r3(rng.uniform(20, 200)),
            "kmax": r3(rng.uniform(40, 1500)), "theta": r3(rng.uniform(0.1, 1)), "tat": r3(rng.choice([0, 1, rng.uniform(0, 3)])),
            "d": d, "fini": r3(rng.uniform(5, 40))}


DEFAULT_BUS = {"name": "bus", "bya": 1, "co": 8.61, "c1": 0.15, "c2": 0, "v": 20, "t": 2.5, "fmax": 150, "kmax": 160,
               "theta": 0.7, "tat": 0, "d": 4, "fini": 28}
DEFAULT_METRO = {"name": "metro", "bya": 0, "co": 80.91, "c1": 0.3, "c2": 933.15, "v": 40, "t": 0.33, "fmax": 40,
                 "kmax": 1440, "theta": 0.5, "tat": 1, "d": 1, "fini": 28}


def draw_pax(rng):
    if rng.random() < 0.5:
        return [4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16]
    pv = r3(rng.uniform(0.5, 4))
    return [r3(rng.uniform(2, 6)), pv, r3(pv * rng.uniform(1, 3)), r3(pv * rng.uniform(1, 4)), r3(rng.uniform(0, 20)),
            pv, r3(pv * rng.uniform(1, 3)), r3(pv * rng.uniform(1, 4)), r3(rng.uniform(0, 20))]


def draw_routes(rng, n, nm, extra=2):
    """A connected base on mode 0 plus extras; each entry [family, mode, options]."""
    base = ["radial"]
    if n >= 1:
        base.append("feeder+rs")
    if n >= 2:
        base.append("diametral")
    b = rng.choice(base)
    out = []
    if b == "radial":
        out.append(["radial", 0, {}])
    elif b == "feeder+rs":
        out.append(["feeder", 0, {}])
        out.append(["radial", 0, {"short": True}])
    else:
        out.append(["diametral", 0, {"jump": 1}])
    fam = [["radial", {"short": True}], ["radial", {"express": True}], ["radial", {}], ["feeder", {}]]
    if n >= 2:
        fam += [["circular", {}], ["circular", {}], ["diametral", {"jump": 1, "short": True}],
                ["diametral", {"jump": 1, "express": True}], ["diametral", {"jump": 1, "short": True, "express": True}],
                ["tangencial", {"jump": 1}], ["tangencial", {"jump": 1, "short": True}],
                ["tangencial", {"jump": 1, "express": True}]]
    k = rng.randint(0, extra)
    if nm > 1:
        k = max(1, k)
    for j in range(k):
        f, o = rng.choice(fam)
        m = rng.randrange(nm) if j else nm - 1
        e = [f, m, o]
        if e not in out:
            out.append(e)
    if rng.random() < 0.25 and n >= 1:
        out.append(["custom", rng.randrange(nm), {"zone": rng.randint(1, n), "kind": rng.choice(["full", "skip", "short", "pair"]),
                                                 "id": "X%d" % rng.randint(1, 9)}])
    return out


def draw_demand(rng, n, sparse=0.5):
    """Cells over node ids 0..2n; either parametric or explicit."""
    if rng.random() > sparse:
        a = r3(rng.uniform(0.2, 0.9))
        al = r3(rng.uniform(0.1, 0.6))
        return {"kind": "param", "y": r3(rng.uniform(50, 20000)), "a": a, "alpha": al, "beta": r3(rng.uniform(0, 0.35))}
    ids = list(range(2 * n + 1))
    pairs = [(o, d) for o in ids for d in ids if o != d]
    k = rng.randint(1, min(len(pairs), 5))
    cells = [[o, d, r3(rng.choice([rng.uniform(0.5, 50), rng.uniform(50, 3000)]))] for o, d in rng.sample(pairs, k)]
    t = rng.random()
    if t < 0.1:         # hardly any demand at all
        cells = [[o, d, float("%.4g" % (v * 1e-6))] for o, d, v in cells]
    elif t < 0.2:       # one pair with hardly any
        cells[0][2] = float("%.4g" % (cells[0][2] * 1e-6))
    return {"kind": "cells", "cells": cells}


def draw_line_world(rng):
    """A bigger city with a few long lines along its ring: many stops per line."""
    n = rng.choice([3, 3, 4, 5, 6])
    city = draw_city(rng, weights=[(n, 1)])
    city.setdefault("g", 0.5)
    modes = [dict(DEFAULT_BUS) if rng.random() < 0.4 else draw_mode(rng, "bus")]
    if rng.random() < 0.3:
        modes.append(draw_mode(rng, "metro", d1=True))
    z, ln = rng.randint(1, n), rng.randint(2, n - 1)
    routes = [["custom", 0, {"zone": z, "kind": "tour", "len": ln, "id": "T1"}]]
    if rng.random() < 0.5:
        routes.append(["custom", rng.randrange(len(modes)), {"zone": z if rng.random() < 0.6 else rng.randint(1, n), "kind": rng.choice(["tour", "skiptour", "full"]), "len": rng.randint(1, n - 1), "id": "T2"}])
    if len(modes) > 1 and all(r[1] == 0 for r in routes):
        routes.append(["custom", 1, {"zone": z, "kind": rng.choice(["feeder", "tour"]), "len": ln, "id": "T3"}])
    stops = tour(n, z, ln)
    cells = {}
    back = rng.random() < 0.4
    for d in rng.sample(range(1, len(stops)), min(len(stops) - 1, rng.choice([1, 1, 2]))):
        for o in range(d):
            if rng.random() < 0.8:
                a, b = (stops[d], stops[o]) if back else (stops[o], stops[d])
                cells[(a, b)] = r3(rng.choice([rng.uniform(0.5, 50), rng.uniform(50, 1500)]))
    if not cells:
        cells[(stops[0], stops[-1])] = 100.0
    return {"city": city, "modes": modes, "pax": draw_pax(rng), "routes": routes,
            "demand": {"kind": "cells", "cells": [[a, b, v] for (a, b), v in sorted(cells.items())]}}


def tour(n, z, ln):
    """Node ids of a built city: out of zone z, around ln subcenters, into the last zone."""
    zs = [(z - 1 + i) % n for i in range(ln + 1)]
    return [2 * zs[0] + 1] + [2 * a + 2 for a in zs] + [2 * zs[-1] + 1]


def draw_world(rng, weights=((1, 4), (2, 5), (3, 1)), extra=2, sparse=0.6, two=0.45, lines=0.08):
    if rng.random() < lines:
        return draw_line_world(rng)
    city = draw_city(rng, weights=list(weights))
    city.setdefault("g", 0.5)
    two_modes = rng.random() < two
    style = rng.random()
    modes = []
    if style < 0.35:
        modes.append(dict(DEFAULT_BUS))
        if two_modes:
            modes.append(dict(DEFAULT_METRO))
    else:
        modes.append(draw_mode(rng, "bus"))
        if two_modes:
            modes.append(draw_mode(rng, "metro", d1=True))
            if rng.random() < 0.3:
                modes.reverse()
    n = city["n"]
    # sparse demand on bigger cities keeps runs short
    return {"city": city, "modes": modes, "pax": draw_pax(rng), "routes": draw_routes(rng, n, len(modes), extra),
            "demand": draw_demand(rng, n, sparse if n < 3 else 0.95)}


# ------------------------------------------------------------------ building
def build_city(c):
    return Graph.build_from_parameters(c["n"], c["l"], c["g"], c["p"], c.get("etha"), c.get("etha_zone"),
                                       list(c["angles"]) if c.get("angles") else None,
                                       list(c["Gi"]) if c.get("Gi") else None,
                                       list(c["Hi"]) if c.get("Hi") else None)


def build_mode(m):
    return TransportMode(m["name"], m["bya"], m["co"], m["c1"], m["c2"], m["v"], m["t"], m["fmax"], m["kmax"],
                         m["theta"], m["tat"], m["d"], m["fini"])


def build_pax(p):
    return Passenger(*p)


def build_demand(graph, d):
    if d["kind"] == "param":
        dem = Demand.build_from_parameters(graph, d["y"], d["a"], d["alpha"], d["beta"])
    else:
        dem = Demand(graph)
    for o, de, v in d.get("cells", []):
        dem.change_vij(o, de, v)
    return dem


def custom_route(graph, mode, o):
    z = graph.get_zones()[o["zone"] - 1]
    p, s, c = z.periphery.id, z.subcenter.id, graph.get_cbd().id
    kind = o["kind"]
    if kind == "full":
        ni = [p, s, c]
        si = [p, s, c]
    elif kind == "skip":
        ni = [p, s, c]
        si = [p, c]
    elif kind == "short":
        ni = [s, c]
        si = [s, c]
    elif kind in ("tour", "skiptour"):
        n = len(graph.get_zones())
        ni = tour(n, o["zone"], min(o.get("len", 1), n - 1))
        si = ni if kind == "tour" else ni[:1] + ni[2:-1:2] + ni[-1:]
    else:
        ni = [p, s]
        si = [p, s]
    nr = ni[::-1]
    sr = ni[::-1] if o.get("asym") else si[::-1]

    def j(x):
        return ",".join(str(a) for a in x)
    return Route(o["id"], mode, j(ni), j(nr), j(si), j(sr))


def family_routes(net, graph, entry, modes):
    f, m, o = entry
    mode = modes[m]
    if f == "custom":
        return [custom_route(graph, mode, o)]
    if f == "circular":
        return net.get_circular_routes(mode)
    if f == "feeder":
        return net.get_feeder_routes(mode)
    if f == "radial":
        return net.get_radial_routes(mode, o.get("short", False), o.get("express", False))
    if f == "diametral":
        return net.get_diametral_routes(mode, o.get("jump", 1), o.get("short", False), o.get("express", False))
    return net.get_tangencial_routes(mode, o.get("jump", 1), o.get("short", False), o.get("express", False))


class W:
    """A built world."""


def build_network(graph, modes, routes):
    net = TransportNetwork(graph)
    for e in routes:
        for r in family_routes(net, graph, e, modes):
            net.add_route(r)
    return net


def build(world, graph=None, demand=None):
    w = W()
    w.graph = graph if graph is not None else build_city(world["city"])
    w.modes = [build_mode(m) for m in world["modes"]]
    w.pax = build_pax(world["pax"])
    w.demand = demand if demand is not None else build_demand(w.graph, world["demand"])
    w.net = build_network(w.graph, w.modes, world["routes"])
    return w


def optimizer(w, f=None):
    return Optimizer(w.graph, w.demand, w.pax, w.net, f)


def freqs(w, vals):
    """dict route_id -> frequency, cycling vals over the routes."""
    f = defaultdict(float)
    for i, r in enumerate(w.net.get_routes()):
        f[r.id] = float(vals[i % len(vals)])
    return f


def vec_for(w, vals):
    return [float(vals[i % len(vals)]) for i in range(len(w.net.get_routes()))]


def draw_freq(rng, k=6, lo=1.0, hi=80.0):
    return [r3(rng.uniform(lo, hi)) for _ in range(k)]


# ------------------------------------------------------------------ observing
def kind_of(node):
    if isinstance(node, CBD):
        return "CBD"
    if isinstance(node, Periphery):
        return "P"
    if isinstance(node, Subcenter):
        return "SC"
    return "?"


def city_obs(g):
    """Everything public about a city, as plain data."""
    nodes = [(int(n.id), str(n.name), kind_of(n), int(n.zone_id), float(n.x), float(n.y), float(n.width)) for n in g.get_nodes()]
    edges = [(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()]
    dist = {}
    ed = g.get_edges_distance()
    for a in ed:
        for b in ed[a]:
            dist[(int(a), int(b))] = float(ed[a][b])
    zones = [(int(z.id), int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()]
    return {"nodes": nodes, "edges": edges, "dist": dist, "zones": zones, "n": g.get_n()}


def params_obs(g):
    def f(x):
        if isinstance(x, (list, tuple)):
            return [f(a) for a in x]
        return x if x is None else float(x)
    return [f(x) for x in g.get_parameters()]


def demand_obs(d):
    m = d.get_matrix()
    out = {}
    for o in list(m):
        for de in list(m[o]):
            out[(int(o), int(de))] = float(m[o][de])
    return {"cells": out, "total": float(d.get_total_trips())}


MODE_FIELDS = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
PAX_FIELDS = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]


def mode_obs(m):
    return tuple(getattr(m, k) for k in MODE_FIELDS)


def pax_obs(p):
    return tuple(getattr(p, k) for k in PAX_FIELDS)


def route_obs(r):
    return (r.id, r.mode.name, tuple(int(x) for x in r.nodes_sequence_i), tuple(int(x) for x in r.nodes_sequence_r),
            tuple(int(x) for x in r.stops_sequence_i), tuple(int(x) for x in r.stops_sequence_r), r._type.name)


def net_obs(n):
    return {"routes": [route_obs(r) for r in n.get_routes()], "modes": [mode_obs(m) for m in n.get_modes()],
            "found": [n.get_route(r.id) is r for r in n.get_routes()]}


def inputs_obs(w):
    return {"city": city_obs(w.graph), "params": params_obs(w.graph), "demand": demand_obs(w.demand), "pax": pax_obs(w.pax),
            "net": net_obs(w.net), "modes": [mode_obs(m) for m in w.modes],
            "ids": [id(r) for r in w.net.get_routes()] + [id(m) for m in w.net.get_modes()]}


# ------------------------------------------------------------------ comparing
def close(a, b, rtol=RTOL, atol=1e-9):
    a = float(a)
    b = float(b)
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def diff(a, b, path="", rtol=RTOL, atol=1e-9):
    """None if equal up to rounding, else a short description of the first difference."""
    num = (int, float)
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    if hasattr(a, "dtype") and not isinstance(a, num):
        a = a.tolist()
    if hasattr(b, "dtype") and not isinstance(b, num):
        b = b.tolist()
    if isinstance(a, num) and isinstance(b, num):
        return None if close(a, b, rtol, atol) else "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys differ: only in first %r, only in second %r" % (path, sorted(map(str, set(a) - set(b)))[:4], sorted(map(str, set(b) - set(a)))[:4])
        for k in a:
            d = diff(a[k], b[k], "%s[%s]" % (path, k), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str) and a != b and rtol >= 1e-9:
        # numbers printed with all their digits are compared as numbers
        x, y = LONG.split(a), LONG.split(b)
        if len(x) == len(y) and x[::2] == y[::2] and all(close(float(p), float(q), rtol, atol) for p, q in zip(x[1::2], y[1::2])):
            return None
    return None if a == b else "%s: %r != %r" % (path, a, b)


LONG = re.compile(r"(?<![\w.])(-?\d+\.\d{5,}(?:[eE][-+]?\d+)?)(?![\w.])")


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', type name, message); interruptions propagate."""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__)


def eval_obs(opt, x):
    """Cost and constraints at x."""
    o1 = outcome(lambda: float(opt.VRC(list(x))))
    o2 = outcome(lambda: [float(c) for c in opt.get_constrains(list(x))])
    return [o1, o2]


def flows(opt, f):
    z, v, load = Assignment.get_alighting_and_boarding(opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, f)
    return z, v, load


TEXTS = ["paths", "pair", "graph", "board", "extended", "limits"]


def text_obs(opt, kind, x):
    """What an optimizer can print of its route choice and flows."""
    if kind == "paths":
        return Hyperpath.string_all_hyperpaths(opt.hyperpaths, opt.labels, opt.successors, opt.Vij)
    if kind == "extended":
        return str(opt.extended_graph_obj)
    if kind in ("board", "limits"):
        f = defaultdict(float)
        for i, r in enumerate(opt.network_obj.get_routes()):
            f[r.id] = float(x[i % len(x)])
        z, v, load = flows(opt, f)
        if kind == "board":
            return Assignment.str_boarding_alighting(z, v)
        return [[float(c) for c in part] for part in opt.constrains(load, f)]
    out = ""
    for o in opt.hyperpaths:
        for d in opt.hyperpaths[o]:
            if kind == "pair":
                out += Hyperpath.string_hyperpaths_OD(opt.hyperpaths[o][d], opt.labels[o][d])
            else:
                out += Hyperpath.string_hyperpath_graph(opt.successors[o][d], opt.labels[o][d], opt.frequency[o][d])
            if len(out) > 20000:
                return out
    return out


def overall_obs(r):
    out = {}
    for k in r:
        if isinstance(r[k], dict):
            out[k] = [(m.name, float(r[k][m])) for m in r[k]]
        else:
            out[k] = float(r[k])
    return out


def rows_list(rows):
    return [[r[0]] + [float(x) for x in r[1:8]] + [[(int(a), int(b), float(c)) for a, b, c in r[8]],
                                                   [(int(a), int(b), float(c)) for a, b, c in r[9]]] for r in rows]
