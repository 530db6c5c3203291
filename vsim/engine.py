"""Batch runner: seeds -> plans -> isolated runs -> verdict, evidence, replay."""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

from vsim import rng as vrng

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "sidermit")
SCRATCH = os.environ.get("VSIM_SCRATCH", "/tmp")
WORKERS = int(os.environ.get("VSIM_WORKERS", "8"))
CPU_PER_RUN = int(os.environ.get("VSIM_CPU", "90"))
WALL_CAP = float(os.environ.get("VSIM_WALL", "800"))
ALL = ["C%02d" % i for i in range(1, 18)]
OBSERVERS = ("norm_city", "full_city", "city_diff", "diff", "close", "flows", "check_published", "published_x", "is_nan")


class Violation(BaseException):
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls = cls
        self.msg = msg


class Env:
    """What a run sees of the simulator."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.events = []
        self._h = hashlib.sha256()
        self.nontrivial = False
        self.steps = 0
        self.fs = None
        self.known = []
        self.paths = {}

    def log(self, *parts):
        line = " ".join(_fmt(p) for p in parts)
        self._h.update(line.encode() + b"\n")
        if len(self.events) < 4000:
            self.events.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()

    def fail(self, cls, msg):
        raise Violation(cls, str(msg)[:2000])

    def check(self, cond, cls, msg):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)

    def soft(self, cls, msg):
        """A failure that may be listed in known-findings.txt: counted and passed over if it is."""
        if is_known(self.known, (cls, msg)):
            self.probe("known_finding:" + cls)
            return
        self.fail(cls, msg)

    def path(self, name):
        # the same string object each time, as a caller's constant would be
        return self.paths.setdefault(name, os.path.join(self.scratch, name))


def _fmt(p):
    if isinstance(p, float):
        return repr(float(p))
    if isinstance(p, str):
        return p
    return repr(p)


def in_package(e):
    """Did this exception pass through the package's code?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG + os.sep):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def malformed(e):
    """Did an observer choke on a value the package handed out (None for a number,
    a row too short)?  A missing attribute of an object is not counted: that is how
    a renamed private member would look."""
    if isinstance(e, AttributeError):
        if getattr(e, "obj", 0) is not None:
            return False
    elif not isinstance(e, (TypeError, ValueError, KeyError, IndexError)):
        return False
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(HERE) and (c.co_name.endswith("_obs") or c.co_name in OBSERVERS):
            return True
        tb = tb.tb_next
    return False


def where(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(PKG + os.sep):
            last = "%s:%d in %s" % (os.path.relpath(fn, os.path.dirname(PKG)), tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last


# ------------------------------------------------------------------ one run
def execute_here(prop, plan, scratch):
    """Run the plan in this (forked, pristine) process; returns a result dict."""
    import random
    import numpy as np
    from vsim import fsim
    os.makedirs(scratch, exist_ok=True)
    env = Env(scratch)
    env.known = known_findings(prop.ID)
    env.fs = fsim.FS(scratch, env)
    fsim.install(env.fs)
    random.seed(12345)
    np.random.seed(12345)
    res = {"viol": None, "error": None}
    try:
        prop.execute(plan, env)
    except Violation as v:
        res["viol"] = (v.cls, v.msg)
        env.log("VIOLATION", v.cls)
    except BaseException as e:      # noqa
        if in_package(e):
            res["viol"] = ("unexpected-%s" % type(e).__name__, "%s: %s (%s)" % (type(e).__name__, e, where(e)))
            res["tb"] = "".join(traceback.format_exception(e))[-3000:]
            env.log("VIOLATION", "unexpected", type(e).__name__)
        elif malformed(e):
            res["viol"] = ("malformed", "what the package answered cannot be read: %s: %s" % (type(e).__name__, e))
            res["tb"] = "".join(traceback.format_exception(e))[-3000:]
            env.log("VIOLATION", "malformed", type(e).__name__)
        else:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    res.update(digest=env.digest(), faults=dict(env.faults), probes=dict(env.probes), states=env.states,
               nontrivial=env.nontrivial, steps=env.steps, events=env.events)
    return res


def fork_run(prop, plan, tag):
    """Fork a pristine child for the plan; returns (pid, read_fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_PER_RUN, CPU_PER_RUN + 10))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not os.environ.get("VSIM_STDERR"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            scratch = os.path.join(SCRATCH, "run-%s" % tag)
            res = execute_here(prop, plan, scratch)
            data = pickle.dumps(res)
            with os.fdopen(w, "wb", closefd=False) as f:
                f.write(struct.pack("<Q", len(data)) + data)
        except BaseException:       # noqa
            code = 70
            try:
                traceback.print_exc()
            except BaseException:   # noqa
                pass
        os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, fd, tag):
    buf = bytearray()
    while True:
        d = os.read(fd, 1 << 20)
        if not d:
            break
        buf += d
    os.close(fd)
    _, st, ru = os.wait4(pid, 0)
    shutil.rmtree(os.path.join(SCRATCH, "run-%s" % tag), ignore_errors=True)
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", buf[:8])[0]:
        return pickle.loads(bytes(buf[8:]))
    base = dict(digest="", faults={}, probes={}, states=set(), nontrivial=False, steps=0, events=[], error=None, viol=None)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL) and ru.ru_utime + ru.ru_stime >= CPU_PER_RUN - 2:
            base["viol"] = ("no-progress", "the run did not finish within %d s of CPU time (runs normally take under %d s)"
                            % (CPU_PER_RUN, max(1, CPU_PER_RUN // 10)))
            return base
        base["error"] = "run %s ended by signal %d" % (tag, sig)
        return base
    base["error"] = "run %s ended with status %r and no result" % (tag, st)
    return base


def run_one(prop, plan, tag="x"):
    pid, fd = fork_run(prop, plan, tag)
    return collect(pid, fd, tag)


def make_plan(prop, seed, tier, i):
    return prop.gen(vrng.derive(seed, prop.ID, tier, i), tier, i)


# ------------------------------------------------------------------ batch
def worker(prop, seed, tier, idxs, wfd, w):
    for i in idxs:
        plan = make_plan(prop, seed, tier, i)
        t0 = time.monotonic()
        res = run_one(prop, plan, "w%d" % w)
        res["i"] = i
        res["wall"] = time.monotonic() - t0
        if res["viol"] is None and i % 50:
            res["events"] = res["events"][:0]
        data = pickle.dumps(res)
        msg = struct.pack("<Q", len(data)) + data
        off = 0
        while off < len(msg):
            off += os.write(wfd, msg[off:off + 65536])
    os._exit(0)


def batch(prop, seed, tier, n, deadline, workers=None, stop_on_violation=True):
    workers = workers or WORKERS
    results = {}
    pipes = {}
    pids = []
    for w in range(workers):
        idxs = list(range(w, n, workers))
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                worker(prop, seed, tier, idxs, wr, w)
            except BaseException:   # noqa
                traceback.print_exc()
                os._exit(71)
        os.close(wr)
        pipes[r] = bytearray()
        pids.append(pid)
    vmin = None
    timed_out = False
    while pipes:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select(list(pipes), [], [], min(left, 5))
        for fd in ready:
            d = os.read(fd, 1 << 20)
            if not d:
                os.close(fd)
                del pipes[fd]
                continue
            b = pipes[fd]
            b += d
            while len(b) >= 8:
                ln = struct.unpack("<Q", bytes(b[:8]))[0]
                if len(b) < 8 + ln:
                    break
                res = pickle.loads(bytes(b[8:8 + ln]))
                del b[:8 + ln]
                results[res["i"]] = res
                if res["viol"] is not None and (vmin is None or res["i"] < vmin):
                    vmin = res["i"]
        if vmin is not None and stop_on_violation and all(i in results for i in range(vmin)):
            break
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    for fd in pipes:
        os.close(fd)
    return results, vmin, timed_out


# ------------------------------------------------------------------ shrink
def get_lists(plan, path):
    """Yield (container, key) for every list reached by path (with '*')."""
    def rec(node, path):
        if len(path) == 1:
            k = path[0]
            if k == "*":
                it = range(len(node)) if isinstance(node, list) else list(node)
                for i in it:
                    if isinstance(node[i], list):
                        yield node, i
            elif isinstance(node, dict) and isinstance(node.get(k), list):
                yield node, k
            return
        k = path[0]
        if k == "*":
            it = node if isinstance(node, list) else list(node.values())
            for c in it:
                if isinstance(c, (dict, list)):
                    yield from rec(c, path[1:])
        elif isinstance(node, dict) and isinstance(node.get(k), (dict, list)):
            yield from rec(node[k], path[1:])
    yield from rec(plan, list(path))


def variants(prop, plan):
    for path in getattr(prop, "SHRINK", []):
        n = sum(1 for _ in get_lists(plan, path))
        for li in range(n):
            cont, key = list(get_lists(plan, path))[li]
            lst = cont[key]
            size = len(lst)
            chunk = size
            while chunk >= 1:
                for s in range(0, size, chunk):
                    p = copy.deepcopy(plan)
                    c2, k2 = list(get_lists(p, path))[li]
                    del c2[k2][s:s + chunk]
                    yield p
                chunk //= 2
    simp = getattr(prop, "simplify", None)
    if simp is not None:
        yield from simp(copy.deepcopy(plan))


def shrink(prop, plan, cls, budget_s):
    t_end = time.monotonic() + budget_s
    tried = 0
    seen = set()
    best = plan
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        gen = variants(prop, best)
        done = False
        while not done and time.monotonic() < t_end:
            cand = []
            for p in gen:
                key = json.dumps(p, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                cand.append(p)
                if len(cand) >= WORKERS:
                    break
            if not cand:
                done = True
                break
            procs = [(fork_run(prop, p, "s%d" % k), p, "s%d" % k) for k, p in enumerate(cand)]
            hit = None
            for (pid, fd), p, tag in procs:
                r = collect(pid, fd, tag)
                tried += 1
                if hit is None and r["viol"] is not None and r["viol"][0] == cls:
                    hit = p
            if hit is not None:
                best = hit
                progress = True
                break
    return best, tried


# ------------------------------------------------------------------ commands
def load_prop(pid):
    return importlib.import_module("vsim.props.%s" % pid.lower())


def prepare():
    """Import everything once; children are forked from this pristine state."""
    import warnings
    import logging
    warnings.filterwarnings("ignore")
    sys.path.insert(0, HERE)
    import pandas        # noqa
    import scipy.optimize  # noqa
    import networkx      # noqa
    import matplotlib.pyplot  # noqa
    import numpy         # noqa
    from vsim import solver, sched
    solver.install()
    sched.enable(PKG)
    sched.install_locks()
    import sidermit
    import sidermit.city
    import sidermit.publictransportsystem
    import sidermit.optimization
    import sidermit.optimization.optimizer as om
    import sidermit.optimization.preoptimization  # noqa
    solver.patch_modules([om])
    assert os.path.realpath(sidermit.__file__).startswith(PKG + os.sep), (sidermit.__file__, PKG)
    logging.getLogger().setLevel(logging.ERROR)
    from vsim import worlds  # noqa
    gc.collect()
    gc.freeze()


def tier_seed():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return tier, seed


def known_findings(pid):
    """known: property=Cxx class=<violation class> match=<regex> | text"""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(known, viol):
    for cls, rx, text in known:
        if viol[0] == cls and rx.search(viol[1]):
            return text
    return None


def cmd_check(pid, argv):
    t0 = time.monotonic()
    deadline = t0 + WALL_CAP
    tier, seed = tier_seed()
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    print("vsim %s tier=%s seed=%d workers=%d" % (pid, tier, seed, WORKERS), flush=True)
    prepare()
    prop = load_prop(pid)
    n = prop.RUNS[tier]
    for a in argv:
        if a.startswith("--runs="):
            n = int(a[7:])
    if hasattr(prop, "custom_check"):
        return prop.custom_check(sys.modules[__name__], tier, seed, n, t0, deadline)
    known = known_findings(pid)
    for text in sorted({t for _, _, t in known}):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    tb = time.monotonic()
    results, vmin, timed_out = batch(prop, seed, tier, n, deadline, stop_on_violation=not known)
    batch_wall = time.monotonic() - tb
    viols = sorted(i for i, r in results.items() if r["viol"] is not None and not is_known(known, r["viol"]))
    errors = sorted(i for i, r in results.items() if r["error"])
    rerun = 0
    mism = 0
    if not viols and not errors and not timed_out:
        for i in range(0, n, max(1, n // 16)):
            r2 = run_one(prop, make_plan(prop, seed, tier, i), "d")
            rerun += 1
            if r2["digest"] != results[i]["digest"]:
                mism += 1
                print("note: run %d gave another event log when repeated" % i)
    write_evidence(prop, tier, seed, results, viols, batch_wall, time.monotonic() - t0, rerun, mism, known)
    if viols:
        return report(prop, tier, seed, viols[0], results[viols[0]], deadline)
    if errors:
        print("HARNESS-ERROR: run %d: %s" % (errors[0], results[errors[0]]["error"]), file=sys.stderr)
        return 2
    if timed_out or len(results) < n:
        print("HARNESS-ERROR: only %d of %d runs finished" % (len(results), n), file=sys.stderr)
        return 3
    miss = [q for q in getattr(prop, "MUST_HIT", []) if not sum(r["faults"].get(q, 0) + r["probes"].get(q, 0) for r in results.values())]
    if miss and n == prop.RUNS[tier]:
        print("HARNESS-ERROR: nothing exercised %s" % miss, file=sys.stderr)
        return 4
    print("held: property=%s runs=%d wall=%.1fs" % (pid, len(results), time.monotonic() - t0))
    return 0


def report(prop, tier, seed, i, res, deadline, plan=None):
    plan = plan if plan is not None else make_plan(prop, seed, tier, i)
    cls, msg = res["viol"]
    print("violation at run %d: %s: %s" % (i, cls, msg), flush=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rp = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (prop.ID, tier, seed, i))
    budget = min(60.0, max(1.0, deadline - time.monotonic() - 60))
    if cls == "no-progress":
        budget = 0
    small, tried = shrink(prop, plan, cls, budget)
    for p, note in ((small, "minimised"), (plan, "as generated")):
        r = run_one(prop, p, "r")
        if r["viol"] is None or r["viol"][0] != cls:
            continue
        doc = {"property": prop.ID, "seed": seed, "tier": tier, "index": i, "class": cls, "message": r["viol"][1],
               "plan": p, "note": note, "shrink_runs": tried, "digest": r["digest"], "events": r["events"][:400]}
        with open(rp, "w") as f:
            json.dump(doc, f, indent=1)
        q = subprocess.run([sys.executable, "-s", os.path.join(HERE, "run.py"), "replay", rp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        doc["replayed_in_fresh_process"] = q.returncode == 1
        with open(rp, "w") as f:
            json.dump(doc, f, indent=1)
        if q.returncode == 1:
            break
    else:
        doc = {"property": prop.ID, "seed": seed, "tier": tier, "index": i, "class": cls, "message": msg, "plan": plan,
               "note": "did not recur when repeated: the code itself is not repeatable", "digest": res["digest"],
               "events": res["events"][:400]}
        with open(rp, "w") as f:
            json.dump(doc, f, indent=1)
    print("seed=%d run=%d minimised after %d runs (%s)" % (seed, i, tried, doc["note"]))
    print("VIOLATION property=%s replay=%s" % (prop.ID, rp), flush=True)
    return 1


def cmd_replay(path):
    with open(path) as f:
        doc = json.load(f)
    prepare()
    prop = load_prop(doc["property"])
    if hasattr(prop, "custom_replay"):
        return prop.custom_replay(sys.modules[__name__], doc)
    r = run_one(prop, doc["plan"], "p")
    if r["error"]:
        print("HARNESS-ERROR: " + r["error"], file=sys.stderr)
        return 2
    for e in r["events"][-60:]:
        print("  " + e)
    if r["viol"] is None:
        print("no violation")
        return 0
    print("%s: %s" % r["viol"])
    if "tb" in r:
        print(r["tb"])
    if r["digest"] != doc.get("digest"):
        print("note: event log differs from the recorded one")
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1 if r["viol"][0] == doc["class"] else 5


def write_evidence(prop, tier, seed, results, viols, batch_wall, wall, rerun, mism, known, extra=None):
    faults = collections.Counter()
    probes = collections.Counter()
    states = set()
    digests = set()
    steps = 0
    for r in results.values():
        faults.update(r["faults"])
        probes.update(r["probes"])
        states |= r["states"]
        steps += r["steps"]
        if r["nontrivial"]:
            digests.add(r["digest"])
    n = len(results)
    samples = []
    for i in sorted(results)[:3]:
        plan = make_plan(prop, seed, tier, i)
        s = json.dumps(plan)
        samples.append({"index": i, "plan": plan if len(s) < 3000 else s[:3000] + "...", "digest": results[i]["digest"],
                        "events": results[i]["events"][:40]})
    cov = {"evaluations": n, "distinct_nontrivial": len(digests), "rule": prop.RULE, "samples": samples,
           "seeds": "VERIF_SEED=%d, run indices 0..%d; plan of run i = PRNG(sha256(seed|property|tier|i))" % (seed, max(0, n - 1)),
           "runs_per_hour": round(n / max(batch_wall, 1e-9) * 3600),
           "simulated_time": "the code reads no clock; progress is counted in simulator steps",
           "simulator_steps": steps,
           "faults_injected": dict(sorted(faults.items())), "probes_hit": dict(sorted(probes.items())),
           "distinct_states": len(states), "state_measure": getattr(prop, "STATE_MEASURE", "hash of the property's own state key"),
           "components_real": getattr(prop, "REAL", []), "components_stubbed": getattr(prop, "STUB", []),
           "reruns_compared": rerun, "rerun_mismatches": mism,
           "slowest_run_s": round(max([r["wall"] for r in results.values()] or [0]), 2)}
    if extra:
        cov.update(extra)
    doc = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop.ID), "w") as f:
        json.dump(doc, f, indent=1, default=str)


def cmd_digests(pid, argv):
    """Print 'index digest' for runs a..b (used by the determinism self-check)."""
    tier, seed = tier_seed()
    a, b = int(argv[0]), int(argv[1])
    w = int(argv[2]) if len(argv) > 2 else WORKERS
    prepare()
    prop = load_prop(pid)

    class Sub:
        pass
    results, _, _ = batch(prop, seed, tier, b, time.monotonic() + WALL_CAP, workers=w, stop_on_violation=False)
    for i in range(a, b):
        r = results[i]
        print("%d %s %s" % (i, r["digest"], "V" if r["viol"] else ("E" if r["error"] else "-")))
    return 0


def cmd_setup():
    prepare()
    for pid in ALL:
        try:
            load_prop(pid)
        except ModuleNotFoundError as e:
            print("missing %s: %s" % (pid, e))
    print("setup ok")
    return 0


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    try:
        if argv[0] == "check":
            return cmd_check(argv[1], argv[2:])
        if argv[0] == "replay":
            return cmd_replay(os.path.abspath(os.path.join(HERE, argv[1])))
        if argv[0] == "digests":
            return cmd_digests(argv[1], argv[2:])
        if argv[0] == "plan":
            prepare()
            prop = load_prop(argv[1])
            tier, seed = tier_seed()
            print(json.dumps(make_plan(prop, seed, tier, int(argv[2])), indent=1))
            return 0
        if argv[0] == "run":
            prepare()
            prop = load_prop(argv[1])
            tier, seed = tier_seed()
            r = run_one(prop, make_plan(prop, seed, tier, int(argv[2])), "o")
            for e in r["events"]:
                print(e)
            print({k: v for k, v in r.items() if k not in ("events", "states")})
            return 0
        if argv[0] == "c13-variant":
            from vsim.props import c13
            return c13.variant_main(argv[1])
        if argv[0] == "setup":
            return cmd_setup()
    except Exception:
        if "sidermit" in traceback.format_exc().split("vsim/engine.py")[-1] and isinstance(sys.exc_info()[1], (ImportError, SyntaxError)):
            traceback.print_exc()
            return 6
        traceback.print_exc()
        return 2
    print("unknown command", argv)
    return 2
