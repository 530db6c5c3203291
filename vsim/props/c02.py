"""C02: a damaged city file never loads as a smaller city."""
import os

from vsim import worlds as W, fsim
from vsim.fsim import SimCrash
from vsim.props import common as C
from sidermit.city import Graph

ID = "C02"
RUNS = {"quick": 6000, "thorough": 50000}
RULE = "distinct event logs of runs in which at least one damaged file was offered to the loader"
STATE_MEASURE = "hash of (zones, kind of damage, place of the damage relative to lines, accepted or refused)"
REAL = ["sidermit.city.graph (whole)", "CPython text/buffered I/O layers", "pandas"]
STUB = ["raw file I/O: crash at any byte or call, full disk, chunking - simulated storage"]
ASSUMPTIONS = ["a crash leaves a prefix of the written bytes (no reordering inside one file)",
               "a cut inside the last digits of the file (the width on the last line) is a listed known finding"]
MUST_HIT = ["cut", "lost_lines", "fs_bytes_crash", "fs_bytes_enospc", "refused", "overwritten", "cut_in_last_width"]
SHRINK = [["damages"]]


def gen(rng, tier, i):
    c = C.draw_big_city(rng, 0.1) if rng.random() < 0.8 else None
    plan = {"knobs": C.draw_knobs(rng), "city": c, "hand": None if c else C.draw_hand(rng),
            "old": C.draw_big_city(rng) if rng.random() < 0.35 else None, "damages": []}
    for _ in range(rng.randint(6, 14)):
        k = rng.random()
        # a place: line counted from the end or start, offset to the end of that line
        place = [rng.choice(["end", "end", "start", "frac"]), rng.choice([0, 0, 0, 1, 1, 2, 3, rng.randint(0, 46)]),
                 rng.choice([0, 0, -1, 1, -2, rng.randint(-40, 40)]), W.r3(rng.random())]
        if k < 0.3:
            plan["damages"].append(["cut", place])
        elif k < 0.55:
            plan["damages"].append(["crash", place])
        elif k < 0.7:
            plan["damages"].append(["enospc", place])
        elif k < 0.78:
            plan["damages"].append(["crashcall", rng.choice(["open", "write", "write", "close"]), rng.choice([0, 0, 1, rng.randint(0, 30)])])
        else:
            # a lost block: some whole node lines, by fraction
            m = rng.choice([1, 1, 2, 2, 2, 3, 4])
            plan["damages"].append(["lost", [W.r3(rng.random()) for _ in range(m)], rng.choice(["any", "zone", "tail", "pair"])])
    return plan


def place_to_byte(place, data):
    ends = [j + 1 for j, b in enumerate(data) if b == 10]
    how, line, off, frac = place
    if how == "frac" or not ends:
        return int(frac * len(data))
    line = min(line, len(ends) - 1)
    base = ends[len(ends) - 1 - line] if how == "end" else ends[line]
    return max(0, min(len(data), base + off))


def execute(plan, env):
    fs = env.fs
    path = env.path("city.pajek")
    ref = env.path("ref.pajek")
    fs.configure(plan["knobs"])
    if plan["city"] is not None:
        g = W.build_city(plan["city"])
    else:
        p = env.path("hand.pajek")
        fsim.real_write(p, C.hand_text(plan["hand"]).encode("utf-8"))
        g = Graph.build_from_file(p)
    want = C.full_city(g)
    g.graph_to_pajek_file(ref)
    data = fsim.real_bytes(ref)
    old = W.build_city(plan["old"]) if plan["old"] else None
    olddata = b""
    if old is not None:
        old.graph_to_pajek_file(env.path("old.pajek"))
        olddata = fsim.real_bytes(env.path("old.pajek"))
    lines = data.splitlines(keepends=True)
    first = next((j for j, ln in enumerate(lines) if ln.lower().startswith(b"*vertices")), 0)
    nodes_at = [j for j in range(first + 1, len(lines)) if lines[j].strip()]
    nlast = int(data.split(b"\n")[-1].split()[0] if data.split(b"\n")[-1].strip() else data.rstrip().split(b"\n")[-1].split()[0])

    def offer(what, complete=False):
        """Load the damaged file and judge."""
        if not os.path.exists(path):
            env.log(what, "no file")
            return
        now = fsim.real_bytes(path)
        if old is not None and now == olddata:
            env.log(what, "old file intact")
            return
        try:
            h = Graph.build_from_file(path)
        except Exception as e:
            env.log(what, "refused", type(e).__name__)
            env.probe("refused")
            env.check(now != data, "intact-file-refused", lambda: "%s left the complete file but loading raised %r" % (what, e))
            env.state(want["n"], what.split(" ")[0], "refused", type(e).__name__)
            return
        got = C.full_city(h)
        env.log(what, "accepted", got["n"])
        env.probe("accepted")
        env.state(want["n"], what.split(" ")[0], "accepted", len(now) - len(data))
        env.check(got["n"] == want["n"], "smaller-city", lambda: "%s: loaded %d zones of %d from %d of %d bytes" % (what, got["n"], want["n"], len(now), len(data)))
        env.check(set(got["nodes"]) == set(want["nodes"]), "nodes-lost", lambda: "%s: node ids %r, the file declares %r" % (what, sorted(got["nodes"]), sorted(want["nodes"])))
        env.check(got["zones"] == want["zones"], "zones-lost", lambda: "%s: zones %r, intact file %r" % (what, got["zones"], want["zones"]))
        for i in want["nodes"]:
            a, b = want["nodes"][i], got["nodes"][i]
            env.check(a[1:5] == b[1:5], "node-moved", lambda: "%s: node %d is %r, was %r" % (what, i, b, a))
        other = [i for i in want["nodes"] if want["nodes"][i][0] != got["nodes"][i][0] or want["nodes"][i][5] != got["nodes"][i][5]]
        # the one cut this format cannot show: inside the digits of the last number of the file
        tail = data[:len(now)] == now and len(now) > len(data.rstrip().rsplit(b" ", 1)[0]) + 1
        if tail and other == [nlast] and want["nodes"][nlast][0] == got["nodes"][nlast][0]:
            env.soft("last-width-truncated", "%s: accepted a file cut inside the width on its last line: node %d has width %r, was %r" % (
                what, nlast, got["nodes"][nlast][5], want["nodes"][nlast][5]))
            env.probe("cut_in_last_width")
        else:
            env.check(not other, "node-changed", lambda: "%s: node %d is %r, was %r" % (what, other[0], got["nodes"][other[0]], want["nodes"][other[0]]))
            env.check(got["p"] == want["p"], "width-changed", lambda: "%s: city width %r, was %r" % (what, got["p"], want["p"]))
        env.check(set(got["streets"]) == set(want["streets"]), "streets-lost", lambda: "%s: streets differ" % what)

    for dm in plan["damages"]:
        env.steps += 1
        env.nontrivial = True
        fs.restart()
        if old is not None:
            fsim.real_write(path, olddata)
            env.probe("overwritten")
        elif os.path.exists(path):
            os.unlink(path)
        k = dm[0]
        if k == "cut":
            b = place_to_byte(dm[1], data)
            fsim.real_write(path, data[:b])
            env.probe("cut")
            offer("cut %d" % b)
        elif k in ("crash", "enospc"):
            b = place_to_byte(dm[1], data)
            fs.arm([{"op": "bytes", "at": b, "kind": k}])
            try:
                g.graph_to_pajek_file(path)
            except (SimCrash, OSError) as e:
                env.log(k, b, type(e).__name__)
            fs.restart()
            offer("%s %d" % (k, b))
        elif k == "crashcall":
            fs.arm([{"op": dm[1], "nth": dm[2], "kind": "crash"}])
            try:
                g.graph_to_pajek_file(path)
            except SimCrash:
                pass
            fs.restart()
            offer("crashcall %s %d" % (dm[1], dm[2]))
        else:
            if not nodes_at:
                continue
            n = len(nodes_at)
            if dm[2] == "any":
                drop = {nodes_at[int(f * n) % n] for f in dm[1]}
            elif dm[2] == "tail":
                drop = set(nodes_at[n - len(dm[1]):])
            elif dm[2] == "pair":
                s = int(dm[1][0] * n) % n
                drop = {nodes_at[j % n] for j in (s, s + 1)}
            else:
                # both nodes of some zone
                zs = sorted(want["zones"])
                if not zs:
                    drop = {nodes_at[0]}
                else:
                    drop = set()
                    for f in dm[1][:2]:
                        z = zs[int(f * len(zs)) % len(zs)]
                        ids = {str(x).encode() for x in want["zones"][z]}
                        drop |= {j for j in nodes_at if lines[j].split()[0] in ids}
            fsim.real_write(path, b"".join(ln for j, ln in enumerate(lines) if j not in drop))
            env.probe("lost_lines")
            offer("lost %d lines" % len(drop))
