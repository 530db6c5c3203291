"""C24: mode catalogues against a reference model."""
from vsim import worlds as W, sched
from sidermit.publictransportsystem import TransportMode, TransportModeManager

ID = "C24"
RUNS = {"quick": 9000, "thorough": 60000}
RULE = "distinct event logs of runs with at least one accepted and one rejected operation, or with a preempted thread"
STATE_MEASURE = "hash of (operation, outcome, number of modes held, whether optimisable)"
REAL = ["sidermit.publictransportsystem.mode (catalogue and modes)"]
STUB = ["thread scheduling - simulated (runs with threads)"]
ASSUMPTIONS = ["a mode is not renamed while a catalogue holds it", "no other thread uses a catalogue while it is edited"]
MUST_HIT = ["rejected", "removed", "readded", "defaults", "default_edited", "shared_mode", "same_name", "junk", "optimisable", "not_optimisable", "several", "by_line", "readers", "preemption"]
SHRINK = [["ops"], ["switches"], ["spots"]]

NAMES = ["bus", "metro", "Bus", "bus ", "tram", "", "b", "us", 1, "1", "ñ"]
KEYS = ("name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini")
EDIT = ("co", "c1", "c2", "v", "t", "fmax", "kmax", "tat", "fini", "d", "d")
JUNK = ["bus", None, 7, "TransportMode"]


def gen(rng, tier, i):
    modes = []
    for _ in range(rng.randint(2, 6)):
        m = W.draw_mode(rng, rng.choice(NAMES))
        m["d"] = rng.choice([1, 1, 2, 3])
        modes.append(m)
    k = rng.choice([1, 2, 2, 3])
    threads = k > 1 and rng.random() < 0.35
    ops = []
    for _ in range(rng.randint(6, 24 if tier == "quick" else 60)):
        q, c = rng.random(), rng.randrange(k)
        if q < 0.45:
            ops.append([c, "add", rng.randrange(len(modes))])
        elif q < 0.7:
            ops.append([c, "rm", rng.choice(NAMES) if rng.random() < 0.3 else ["held", rng.randrange(9)]])
        elif q < 0.78:
            ops.append([c, "edit", rng.randrange(9), rng.choice(EDIT), rng.choice([1, 2, 3])])
        elif q < 0.84:
            ops.append([c, "junk", rng.randrange(len(JUNK))])
        elif q < 0.9:
            ops.append([c, "new", rng.random() < 0.5])
        elif q < 0.95:
            ops.append([c, "fresh", rng.choice(["bus", "metro"]), rng.choice(EDIT[:9]), rng.choice([1, 5, 9])])
        else:
            ops.append([c, "back", rng.randrange(9)])
    plan = {"modes": modes, "k": k, "start": [rng.random() < 0.4 for _ in range(k)], "threads": threads, "ops": ops}
    if threads:
        plan["readers"] = rng.random() < 0.4
        plan["switches"] = sorted([rng.random(), rng.randrange(k)] for _ in range(rng.choice([3, 10, 40, 120])))
        plan["spots"] = [[rng.randrange(k), W.r3(rng.random()), rng.randrange(k)] for _ in range(rng.choice([0, 4, 20]))]
    return plan


def mode_obs(m):
    return [getattr(m, q) for q in KEYS]


DEFAULTS = [[W.DEFAULT_BUS, 4], [W.DEFAULT_METRO, 1]]


def default_want(j):
    d, lines = DEFAULTS[j]
    w = dict(d)
    w["fmax"] *= lines
    w["fini"] *= lines
    return [w[q] for q in KEYS]


class Cat:
    """A catalogue and what it should hold."""

    def __init__(self, env, label, modes, threaded):
        self.env, self.label, self.modes, self.threaded = env, label, modes, threaded
        self.held, self.gone, self.vals = [], [], {}
        self.ok = self.rej = 0

    def start(self, defaults):
        self.held, self.gone = [], []
        self.cat = TransportModeManager() if defaults else TransportModeManager(add_default_mode=False)
        if defaults:
            self.env.probe("defaults")
            got = list(self.cat.get_modes())
            want = [default_want(0), default_want(1)]
            self.env.check([mode_obs(m) for m in got] == want, "defaults", lambda: "%s starts with %r, documented %r" % (self.label, [mode_obs(m) for m in got], want))
            self.held = got
            for m in got:
                self.vals[id(m)] = (m, mode_obs(m))
        self.check("its creation")

    def check(self, what):
        env, held = self.env, self.held
        got = self.cat.get_modes()
        env.check(len(got) == len(held) and all(a is b for a, b in zip(got, held)), "modes",
                  lambda: "after %s %s holds %r, expected %r" % (what, self.label, [m.name for m in got], [m.name for m in held]))
        names = list(self.cat.get_modes_names())
        env.check(names == [m.name for m in held], "names", lambda: "after %s %s names %r, holds %r" % (what, self.label, names, [m.name for m in held]))
        for m in held:
            env.check(self.cat.get_mode(m.name) is m, "lookup", lambda: "after %s %s finds another mode under %r" % (what, self.label, m.name))
            if id(m) in self.vals and not self.threaded:
                w = self.vals[id(m)][1]
                env.check(mode_obs(m) == w, "mode-changed", lambda: "after %s mode %r of %s reads %r, set to %r" % (what, m.name, self.label, mode_obs(m), w))
        for name in NAMES:
            if not any(m.name == name for m in held):
                o = W.outcome(self.cat.get_mode, name)
                env.check(o[0] == "exc", "ghost", lambda: "after %s %s finds a mode under %r" % (what, self.label, name))
        want = len(held) == 1 or len(held) == 2 and any(m.d == 1 for m in held)
        o = W.outcome(self.cat.is_valid_to_assignment_step)
        env.probe("optimisable" if want else "not_optimisable")
        env.check(o == ("ok", True) if want else o[0] == "exc", "optimisable", lambda: "after %s %s with d=%r says %r" % (what, self.label, [m.d for m in held], o[:2]))
        env.state(what, len(held), want)

    def apply(self, op):
        env, k = self.env, op[0]
        env.steps += 1
        if k == "new":
            self.start(op[1])
            env.log(self.label, "new", op[1])
            return
        if k in ("add", "back"):
            if k == "back":
                if not self.gone:
                    return
                m = self.gone[op[1] % len(self.gone)]
            else:
                m = self.modes[op[1]]
            want = not any(x.name == m.name for x in self.held)
            if not want and not any(x is m for x in self.held):
                env.probe("same_name")
            o = W.outcome(self.cat.add_mode, m)
            env.check((o[0] == "ok") == want, "mode-accepted" if o[0] == "ok" else "mode-rejected",
                      lambda: "adding %r to %s holding %r: %r" % (m.name, self.label, [x.name for x in self.held], o[0]))
            if want:
                if any(x is m for x in self.gone):
                    env.probe("readded")
                self.held.append(m)
        elif k == "rm":
            name = op[1]
            if isinstance(name, list):
                if not self.held:
                    return
                name = self.held[name[1] % len(self.held)].name
            want = any(m.name == name for m in self.held)
            o = W.outcome(self.cat.remove_mode, name)
            env.check((o[0] == "ok") == want, "removed-unknown" if o[0] == "ok" else "not-removed", lambda: "removing %r from %s holding %r: %r" % (name, self.label, [m.name for m in self.held], o[:2]))
            if want:
                env.probe("removed")
                self.gone += [m for m in self.held if m.name == name]
                self.held = [m for m in self.held if m.name != name]
        elif k == "junk":
            want = False
            j = JUNK[op[1]]
            o = W.outcome(self.cat.add_mode, TransportMode if j == "TransportMode" else j)
            env.check(o[0] == "exc", "junk-accepted", lambda: "%s accepted %r as a mode" % (self.label, j))
            env.probe("junk")
        elif k == "edit":
            if not self.held:
                return
            m = self.held[op[1] % len(self.held)]
            setattr(m, op[2], op[3])
            self.vals[id(m)] = (m, mode_obs(m))
            env.check(getattr(m, op[2]) == op[3], "edit-lost", lambda: "%s of mode %r set to %r reads %r" % (op[2], m.name, op[3], getattr(m, op[2])))
            want = True
        else:
            # a default mode obtained aside and edited: no one else's business
            b = TransportMode.get_default_modes()
            got = [mode_obs(m) for m in b]
            env.check(got == [default_want(0), default_want(1)], "defaults", lambda: "default modes are %r" % (got,))
            setattr(b[op[1] == "metro"], op[2], op[3])
            env.probe("default_edited")
            want = True
        if want:
            self.ok += 1
        else:
            self.rej += 1
            env.probe("rejected")
        env.log(self.label, k, op[1:], want)
        self.check(k)


def streams(plan, env):
    """Catalogues and their operations. With threads each has modes of its own."""
    shared = [W.build_mode(m) for m in plan["modes"]]
    vals = {}
    cats, ops = [], []
    for c in range(plan["k"]):
        modes = [W.build_mode(m) for m in plan["modes"]] if plan["threads"] else shared
        t = Cat(env, "catalogue %d" % c, modes, plan["threads"])
        t.vals = vals
        cats.append(t)
        ops.append([o[1:] for o in plan["ops"] if o[0] == c])
    for m in shared:
        vals[id(m)] = (m, mode_obs(m))
    return cats, ops


def execute(plan, env):
    if plan["k"] > 1:
        env.probe("several")
    cats, ops = streams(plan, env)
    if plan["threads"]:
        env.probe("by_line")
        quiet, _ = streams(plan, env)

        if plan.get("readers"):
            # one catalogue made by all the operations, then read by every thread
            for ts in (cats, quiet):
                ts[0].start(plan["start"][0])
                for o in plan["ops"]:
                    ts[0].apply(o[1:])
                for t in ts[1:]:
                    t.cat, t.held, t.label = ts[0].cat, ts[0].held, ts[0].label
            env.probe("readers")

        def steps(ts, c):
            if plan.get("readers"):
                for j in range(3):
                    ts[c].check("lookups by several threads")
            else:
                ts[c].start(plan["start"][c])
                for op in ops[c]:
                    ts[c].apply(op)

        def body(c):
            def run():
                steps(cats, c)
            return run
        # each stream alone first: its length in lines, and that it holds alone
        n, first = [], []
        for c in range(plan["k"]):
            f = []

            def alone(c=c):
                steps(quiet, c)
            k, out = sched.count(alone, False, f)
            if out[0] == "exc":
                raise out[1]
            n.append(k)
            first.append(f)
        spots = {}
        for k, u, t in plan["spots"]:
            if k < plan["k"] and first[k]:
                spots[k, first[k][int(u * len(first[k])) % len(first[k])]] = t
        total = sum(n)
        sc = sched.Scheduler([body(c) for c in range(plan["k"])], [[int(u * total), t] for u, t in plan["switches"]], env, spots)
        for r in sc.run():
            if r[0] == "exc":
                raise r[1]
        for a in sc.trace[:400]:
            env.log("switch", *a)
        env.nontrivial = len(sc.trace) > 0
    else:
        for c, t in enumerate(cats):
            t.start(plan["start"][c])
        for o in plan["ops"]:
            t = cats[o[0]]
            t.apply(o[1:])
            for other in cats:
                if other is not t:
                    if any(m is x for m in t.held for x in other.held):
                        env.probe("shared_mode")
                    other.check("%s in another catalogue" % o[1])
    for c, t in enumerate(cats):
        t.check("everything")
    if not plan["threads"]:
        env.nontrivial = any(t.ok for t in cats) and any(t.rej for t in cats)
