"""C01: save/load histories of city files."""
from vsim import worlds as W, fsim
from vsim.props import common as C
from sidermit.city import Graph

ID = "C01"
RUNS = {"quick": 8000, "thorough": 60000}
RULE = "distinct event logs of runs that loaded at least one saved city back"
STATE_MEASURE = "hash of (kind of step, zones of the city, I/O knobs in force)"
REAL = ["sidermit.city.graph (whole)", "CPython text/buffered I/O layers", "pandas"]
STUB = ["raw file I/O (chunking, errors, default encoding, newline) - simulated storage over a scratch directory"]
ASSUMPTIONS = ["mean subcenter radius > 0 (the loader divides by it) or no zones",
               "node names contain no white space (the file format separates by white space)"]
MUST_HIT = ["fs_read_eio", "roundtrip", "hand_city", "overwrite", "renamed", "big_file"]
SHRINK = [["steps"]]


def gen(rng, tier, i):
    steps = []
    nslot, nfile = 3, 2
    steps.append(["build", 0, C.draw_big_city(rng, 0.25)])
    for _ in range(rng.randint(3, 10 if tier == "quick" else 18)):
        k = rng.random()
        if k < 0.2:
            steps.append(["build", rng.randrange(nslot), C.draw_big_city(rng, 0.25)])
        elif k < 0.3:
            steps.append(["hand", rng.randrange(nslot), C.draw_hand(rng)])
        elif k < 0.55:
            steps.append(["save", rng.randrange(nslot), rng.randrange(nfile)])
        elif k < 0.85:
            st = ["load", rng.randrange(nfile), rng.randrange(nslot), None]
            if rng.random() < 0.2:
                st[3] = [{"op": "read", "nth": rng.choice([0, 0, 1, 2, rng.randint(0, 40)]), "kind": "eio", "sticky": rng.random() < 0.5}]
            elif rng.random() < 0.15:
                st[3] = [{"op": "read", "nth": rng.randint(0, 5), "kind": rng.choice(["eintr", "short"])}]
            steps.append(st)
        elif k < 0.88:
            steps.append(["rename", rng.randrange(nslot), rng.random(), rng.choice(C.NAMES)])
        elif k < 0.95:
            steps.append(["content", rng.randrange(nslot), rng.randrange(nslot)])
        else:
            steps.append(["knobs", C.draw_knobs(rng)])
    steps += [["save", 0, 0], ["load", 0, 1, None]]
    return {"knobs": C.draw_knobs(rng), "steps": steps}


def execute(plan, env):
    fs = env.fs
    fs.configure(plan["knobs"])
    slots = {}
    files = {}
    env.log("knobs", sorted(plan["knobs"].items()))

    def loaded(g, want, how):
        got = C.full_city(g)
        d = C.city_diff(want, got)
        env.check(d is None, "not-the-saved-city", lambda: "%s: %s" % (how, d))
        env.probe("roundtrip")
        env.nontrivial = True

    for si, st in enumerate(plan["steps"]):
        env.steps += 1
        k = st[0]
        if k == "knobs":
            fs.knobs.pop("wmax", None)
            fs.knobs.pop("rmax", None)
            fs.configure(st[1])
            env.log("knobs")
        elif k == "build":
            slots[st[1]] = W.build_city(st[2])
            env.log("build", st[1], st[2]["n"])
        elif k == "hand":
            p = env.path("hand%d.pajek" % si)
            fsim.real_write(p, C.hand_text(st[2]).encode("utf-8"))
            slots[st[1]] = Graph.build_from_file(p)
            env.probe("hand_city")
            env.log("hand", st[1])
        elif k == "rename":
            g = slots.get(st[1])
            if g is None or not g.get_nodes():
                continue
            node = g.get_nodes()[int(st[2] * len(g.get_nodes()))]
            node.name = st[3]
            env.probe("renamed")
            env.log("rename", node.id, st[3])
        elif k == "save":
            g = slots.get(st[1])
            if g is None:
                continue
            before = (W.city_obs(g), W.params_obs(g))
            g.graph_to_pajek_file(env.path("city%d.pajek" % st[2]))
            env.check((W.city_obs(g), W.params_obs(g)) == before, "save-changed-city", "saving changed the city in memory")
            if st[2] in files:
                env.probe("overwrite")
            files[st[2]] = C.full_city(g)
            if g.get_n() > 50:
                env.probe("big_file")
            env.log("save", st[1], st[2], g.get_n())
        elif k == "load":
            if st[1] not in files:
                continue
            want = files[st[1]]
            fs.arm(st[3])
            kind, v = "ok", None
            try:
                v = Graph.build_from_file(env.path("city%d.pajek" % st[1]))
            except OSError as e:
                kind = "exc"
                env.check(any(f["kind"] == "eio" for f in fs.fired), "load-failed", "loading a saved city raised %r" % e)
            fired = [f["kind"] for f in fs.fired]
            fs.disarm()
            env.log("load", st[1], kind, fired)
            if kind == "ok":
                loaded(v, want, "after a load of %s%s" % ("a saved file", " that met a read error" if "eio" in fired else ""))
                slots[st[2]] = v
        elif k == "content":
            g = slots.get(st[1])
            if g is None:
                continue
            text = g.export_graph()
            env.check(g.export_graph() == text, "export-not-repeatable", "exporting twice gave different text")
            h = Graph.build_from_content(text)
            loaded(h, C.full_city(g), "after export and build_from_content")
            slots[st[2]] = h
            env.log("content", st[1])
        env.state(k, {s: slots[s].get_n() for s in slots}, sorted(fs.knobs.items()) if k in ("save", "load") else 0)


def simplify(plan):
    import copy
    for i, st in enumerate(plan["steps"]):
        if st[0] == "build":
            for key in ("Gi", "Hi", "angles"):
                if st[2].get(key):
                    p = copy.deepcopy(plan)
                    del p["steps"][i][2][key]
                    yield p
            if "etha" in st[2]:
                p = copy.deepcopy(plan)
                del p["steps"][i][2]["etha"], p["steps"][i][2]["etha_zone"]
                yield p
            if st[2]["n"] > 1 and not any(st[2].get(q) for q in ("Gi", "Hi", "angles")) and "etha" not in st[2]:
                p = copy.deepcopy(plan)
                p["steps"][i][2]["n"] = 1
                yield p
        if st[0] == "load" and st[3]:
            p = copy.deepcopy(plan)
            p["steps"][i][3] = None
            yield p
    if plan["knobs"] != {"bufsize": 8192, "chunk": 8192, "encoding": "utf-8", "linesep": "\n"}:
        p = copy.deepcopy(plan)
        p["knobs"] = {"bufsize": 8192, "chunk": 8192, "encoding": "utf-8", "linesep": "\n"}
        yield p
