"""Things several properties share."""
from collections import defaultdict

from vsim import worlds as W

ENCODINGS = ["utf-8", "utf-8", "ascii", "cp1252", "latin-1", "cp1251"]
NAMES = ["CBD", "Centro", "Ñuñoa", "Concepción", "Peñalolén", "São_Paulo", "Škoda", "Łódź", "北京", "Zürich", "P_1", "SC_1",
         "Viña", "дом", "Αθήνα", "x-9", "é", "O'Higgins", "_x_", '"q"', "7", "1e5", "nan", "#1", "a;b,c", "SC", "*vertices", "True"]


def draw_knobs(rng):
    k = {"bufsize": rng.choice([8192, 8192, 1, 7, 64, 1000]), "chunk": rng.choice([8192, 8192, 1, 5, 128]),
         "encoding": rng.choice(ENCODINGS), "linesep": rng.choice(["\n", "\n", "\r\n"])}
    if rng.random() < 0.4:
        k["wmax"] = rng.choice([1, 3, 17, 200])
    if rng.random() < 0.4:
        k["rmax"] = rng.choice([1, 3, 17, 200])
    return k


def draw_big_city(rng, huge=0.0):
    """Storage properties build no optimizer, so bigger cities are cheap."""
    c = W.draw_city(rng, weights=[(0, 1), (1, 3), (2, 3), (3, 4), (4, 2), (5, 2), (8, 1), (23, 0.4), (60, huge), (130, huge), (450, huge / 8)])
    if c["n"] == 0:
        for k in ("Gi", "Hi", "angles", "etha", "etha_zone"):
            c.pop(k, None)
    if c["n"] and rng.random() < 0.15:
        # ties: several subcenters on one ray, or on the axes
        a = W.r3(rng.choice([0, 90, 180, 270, 360, rng.uniform(0, 360)]))
        c["angles"] = [rng.choice([a, 0, 90, 180, 360]) for _ in range(c["n"])]
    if c["n"] and rng.random() < 0.2:
        c["etha"] = rng.choice([1, 0, 0.999, W.r3(rng.random())])
        c["etha_zone"] = rng.randint(1, c["n"])
    if c["n"] > 1 and rng.random() < 0.15:
        g = [W.r3(rng.uniform(0.4, 1.6)) for _ in range(c["n"])]
        g[rng.randrange(c["n"])] = 0          # a subcenter in the middle
        c["Gi"] = g
    return c


def draw_hand(rng):
    """A hand-written city file: arbitrary ids, order and names."""
    n = rng.choice([1, 1, 2, 3, 4])
    ids = rng.sample(range(0, 500), 2 * n + 1)
    rows = []
    ang0 = rng.uniform(0, 360)
    import math
    w = W.r3(rng.uniform(0.1, 4))
    rows.append([ids[0], rng.choice(NAMES), 0.0, 0.0, "CBD", 0, w])
    for z in range(n):
        a = math.radians((ang0 + 360.0 * z / n) % 360)
        r1 = rng.uniform(1, 15)
        r2 = r1 * rng.uniform(0.7, 2.5)
        rows.append([ids[2 * z + 1], rng.choice(NAMES), r2 * math.cos(a), r2 * math.sin(a), "P", z + 1, w])
        rows.append([ids[2 * z + 2], rng.choice(NAMES), r1 * math.cos(a), r1 * math.sin(a), "SC", z + 1, w])
    if rng.random() < 0.5:
        rng.shuffle(rows)
    return {"rows": rows, "nl": rng.choice(["\n", "\n", "\r\n"]), "head": rng.choice(["", "written by hand\n\n"])}


def hand_text(h):
    s = h["head"] + "*vertices %d\n" % len(h["rows"])
    for r in h["rows"]:
        s += " ".join(str(x) for x in r) + "\n"
    return s.replace("\n", h["nl"])


def norm_city(obs, p):
    """City observation with the order of nodes and streets taken out."""
    return {"nodes": {n[0]: list(n[1:]) for n in obs["nodes"]}, "streets": {"%d>%d" % (a, b): 1 for a, b in obs["edges"]},
            "dist": {"%d>%d" % k: v for k, v in obs["dist"].items()}, "zones": {z[0]: list(z[1:]) for z in obs["zones"]},
            "n": obs["n"], "p": float(p)}


def full_city(g):
    return norm_city(W.city_obs(g), g.get_parameters()[3])


def city_diff(a, b):
    """Exact positions, names, ids; lengths up to rounding."""
    d = W.diff(a, b, "city", 1e-12, 1e-12)
    if d:
        return d
    for i in a["nodes"]:
        x, y = a["nodes"][i], b["nodes"][i]
        if x[:5] != y[:5]:
            return "node %d: %r != %r" % (i, x, y)
    return None


def draw_script(rng, rounds=None, ok=0.8, probes=2):
    """Solver rounds with mostly acceptable outcomes."""
    n = rounds or rng.randint(1, 4)
    out = []
    for i in range(n):
        r = {"x": W.draw_freq(rng, rng.randint(1, 6), 1, 60), "probes": [W.draw_freq(rng, 4, 0.5, 90) for _ in range(rng.randint(0, probes))],
             "fun": W.r3(rng.uniform(100, 9e4)), "cv": 0.0, "status": rng.choice([1, 2]), "reuse": rng.random() < 0.5}
        if rng.random() < 0.3:
            r["fun"] = "eval"
        if rng.random() < 0.25:
            z = rng.randrange(len(r["x"]))
            r["x"][z] = rng.choice([0.0, 0.01, 0.0416, 0.05])
        if rng.random() > ok:
            bad = rng.choice(["status", "cv", "neg", "nan"])
            if bad == "status":
                r["status"] = rng.choice([0, 3])
            elif bad == "cv":
                r["cv"] = rng.choice([0.5, 0.0011, 0.05])
            elif bad == "neg":
                r["x"][0] = -rng.choice([1e-9, 0.01, 0.5])
            else:
                r["fun"] = "nan"
        out.append(r)
    return out


def service_script(rng, rounds=None):
    """Rounds every one of which is acceptable and leaves all routes in service."""
    out = []
    for i in range(rounds or rng.randint(1, 3)):
        out.append({"x": W.draw_freq(rng, rng.randint(1, 6), 1, 60), "probes": [W.draw_freq(rng, 4, 0.5, 90) for _ in range(rng.randint(0, 2))],
                    "fun": W.r3(rng.uniform(100, 9e4)), "cv": 0.0, "status": rng.choice([1, 2])})
    return out


# ------------------------------------------------------------------ optimisation
class Ref:
    """Route choice at given frequencies, put together from the package's parts
    without going through Optimizer: what one round must evaluate."""

    def __init__(self, w, f, fini=None):
        from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath, Assignment
        self.w = w
        self.ids = [r.id for r in w.net.get_routes()]
        fd = defaultdict(float)
        for i, v in zip(self.ids, f):
            fd[i] = v
        p = w.pax
        self.eg = ExtendedGraph(w.graph, w.net.get_routes(), p.pt, fd)
        self.hyper, self.labels, self.succ, _, self.vij = Hyperpath(self.eg, p).get_all_hyperpaths(w.demand.get_matrix())
        self.asg = Assignment.get_assignment(self.hyper, self.labels, w.graph.get_parameters()[3], p.va, p.pa, p.pv)

    def flows(self, x):
        from sidermit.optimization.preoptimization import Assignment
        f = defaultdict(float)
        for i, v in zip(self.ids, x):
            f[i] = v
        z, v, load = Assignment.get_alighting_and_boarding(self.vij, self.hyper, self.succ, self.asg, f)
        return f, z, v, load

    def parts(self, x):
        from sidermit.optimization import OperatorsCost, InfrastructureCost, UsersCost
        from sidermit.optimization.preoptimization import Assignment
        w = self.w
        f, z, v, load = self.flows(x)
        k = Assignment.most_loaded_section(load)
        routes = w.net.get_routes()
        oc = OperatorsCost()
        cyc = oc.get_cycle_time(z, v, routes, oc.lines_travel_time(routes, w.graph.get_edges_distance()))
        co = oc.get_operators_cost(routes, cyc, f, k)
        ci = InfrastructureCost().get_infrastruture_cost(w.graph, w.net, f)
        cu = UsersCost().get_users_cost(self.hyper, self.vij, self.asg, self.succ, self.eg, f, w.pax, z, v)
        return float(co), float(ci), float(cu)

    def vrc(self, x):
        return sum(self.parts(x))


def outcome_exc(fn):
    """('ok', value) or ('exc', type name, exception); interruptions of the plan's own kind included."""
    try:
        return ("ok", fn())
    except (Exception, KeyboardInterrupt) as e:
        return ("exc", type(e).__name__, e)


def acceptable(rec):
    return ("x" in rec and rec["status"] not in (0, 3) and abs(rec["cv"]) < 0.001 and not any(a < 0 for a in rec["x"])
            and rec["fun"] == rec["fun"])


def published_x(x):
    return [0.0 if a < 1 / 24 else a for a in x]


def is_nan(a):
    return a != a


def same_number(a, b):
    return a == b or (a != a and b != b)


def check_published(env, res, calls, tag):
    """C06: the published tuple against the rounds that were played."""
    env.check(isinstance(res, tuple) and len(res) == 6, "no-result", lambda: "%s published %r" % (tag, res))
    fopt, success, status, message, cv, fun = res
    good = [c for c in calls if acceptable(c)]
    src = [c for c in calls if "x" in c and c["message"] == message and same_number(c["fun"], float(fun)) and c["status"] == status
           and same_number(c["cv"], float(cv)) and bool(success) == c["success"]]
    env.check(src, "published-foreign", lambda: "%s published (status %r, message %r, violation %r, cost %r): no round returned that; rounds: %r" % (
        tag, status, message, cv, fun, [(c.get("status"), c.get("message"), c.get("cv"), c.get("fun")) for c in calls]))
    rec = src[0]
    fopt = [float(a) for a in fopt]
    env.check(fopt == published_x(rec["x"]), "published-frequencies", lambda: "%s published %r, round %d returned %r" % (tag, fopt, rec["i"], rec["x"]))
    env.check(acceptable(rec), "published-unacceptable", lambda: "%s published round %d: status %r violation %r cost %r x %r" % (
        tag, rec["i"], rec["status"], rec["cv"], rec["fun"], rec["x"]))
    best = min(c["fun"] for c in good)
    env.check(rec["fun"] <= best, "published-dearer", lambda: "%s published round %d at cost %r, an acceptable round cost %r" % (tag, rec["i"], rec["fun"], best))
    return rec


class ChildFailed(Exception):
    pass


def alone(fn):
    """Run fn() in a fork of this process and return what it returned: nothing
    it does can influence (or be influenced by) what this process does later."""
    import os
    import pickle
    import traceback
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:       # noqa
                data = pickle.dumps(("err", traceback.format_exc()))
            with os.fdopen(wr, "wb", closefd=False) as f:
                f.write(data)
        except BaseException:           # noqa
            code = 71
        os._exit(code)
    os.close(wr)
    buf = bytearray()
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise ChildFailed("no answer from the reference process")
    kind, val = pickle.loads(bytes(buf))
    if kind == "err":
        raise ChildFailed(val)
    return val


def res_obs(res):
    """A published tuple as plain data."""
    if res is None:
        return None
    fopt, success, status, message, cv, fun = res
    return [[float(a) for a in fopt], bool(success), int(status), str(message), float(cv), float(fun)]


def report_obs(opt, kind, env=None, path=None):
    """One report of an optimizer that holds a result."""
    if kind == "net":
        return ("ok", W.rows_list(opt.get_network_results()))
    if kind == "all":
        return ("ok", W.overall_obs(opt.get_overall_results()))
    if kind == "netstr":
        return ("ok", opt.string_network_results())
    if kind == "allstr":
        return ("ok", opt.string_overall_results())
    if kind == "summary":
        return ("ok", opt.string_network_optimization(opt.get_optimization_value()))
    if kind == "file":
        from vsim import fsim
        opt.write_file_network_results(path)
        return ("ok", fsim.real_bytes(path).decode("utf-8").replace("\r\n", "\n"))
    return ("ok", res_obs(opt.get_optimization_value()))


REPORTS = ["net", "all", "netstr", "allstr", "file", "summary", "value"]


class Zygote:
    """A process forked before the run does anything; every call runs in a
    fresh fork of it, so nothing done so far in the run can reach it."""

    def __init__(self, env):
        import os
        self.env = env
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w1)
                os.close(self.r2)
                self._serve()
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)

    @staticmethod
    def _send(fd, obj):
        import os
        import pickle
        import struct
        d = pickle.dumps(obj)
        d = struct.pack("<Q", len(d)) + d
        off = 0
        while off < len(d):
            off += os.write(fd, d[off:off + 65536])

    @staticmethod
    def _recv(fd):
        import os
        import pickle
        import struct
        b = bytearray()
        while True:
            if len(b) >= 8 and len(b) - 8 == struct.unpack("<Q", bytes(b[:8]))[0]:
                return pickle.loads(bytes(b[8:]))
            d = os.read(fd, 1 << 20)
            if not d:
                return None
            b += d

    def _serve(self):
        while True:
            req = self._recv(self.r1)
            if req is None:
                return
            fn, args = req
            try:
                ans = ("ok", alone(lambda: fn(self.env, *args)))
            except ChildFailed as e:
                ans = ("err", str(e))
            self._send(self.w2, ans)

    def call(self, fn, *args):
        self._send(self.w1, (fn, args))
        ans = self._recv(self.r2)
        if ans is None:
            raise ChildFailed("the reference process ended")
        if ans[0] == "err":
            raise ChildFailed(ans[1])
        return ans[1]

    def close(self):
        import os
        os.close(self.w1)
        os.close(self.r2)
        os.waitpid(self.pid, 0)
