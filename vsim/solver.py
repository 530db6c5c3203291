"""The simulated numerical solver.

scipy.optimize.minimize is replaced, before the package is imported, by a
dispatcher.  With a script installed, each call ("round") plays the next entry
of the script: it probes the objective and the constraints like a solver would
(possibly reusing one array in place), then returns the scripted outcome or
raises the scripted error.  Without a script the real scipy runs.
"""
import threading

import numpy as np
import scipy.optimize as so

_real = so.minimize
_tls = threading.local()          # each simulated thread has its own solver


class SolverCrash(Exception):
    pass


class TooManyRounds(BaseException):
    """The outer loop did not stop: raised into it by the simulator."""


EXCS = {"SolverCrash": SolverCrash, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError,
        "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
        "FloatingPointError": FloatingPointError, "LinAlgError": np.linalg.LinAlgError}


def minimize(*args, **kw):
    h = getattr(_tls, "handler", None)
    if h is None:
        return _real(*args, **kw)
    return h(*args, **kw)


def install():
    so.minimize = minimize


def patch_modules(mods):
    for m in mods:
        if getattr(m, "minimize", None) is _real:
            m.minimize = minimize


def set_handler(h):
    _tls.handler = h


class using:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        self.prev = getattr(_tls, "handler", None)
        set_handler(self.h)
        return self.h

    def __exit__(self, *a):
        set_handler(self.prev)


def vec(vals, n):
    """Scripted list -> vector of the problem's size."""
    if not vals:
        vals = [1.0]
    return [float(vals[i % len(vals)]) for i in range(n)]


def negated(fun):
    return lambda x: [-float(v) for v in np.atleast_1d(fun(x))]


def at_least_zero(c):
    """A limit told as `fun >= 0` rather than `fun <= 0`."""
    try:
        return bool(np.all(np.asarray(c.lb, float) == 0) and np.all(np.asarray(c.ub, float) == np.inf))
    except (TypeError, ValueError, AttributeError):
        return False


class Script:
    """rounds: list of dicts
         x: list (cycled to the size of the problem) or {"rel":[..]} relative to x0
         probes: list of lists evaluated before returning
         fun: number | "eval" | "nan" | "inf" | "-inf";  cv: number | "eval" | "nan"
         status, success, message;  exc: name of an exception raised instead
         reuse: evaluate probes in one array mutated in place
       real: {"maxiter": k} - the real scipy runs, stopped after k iterations; what
         it visits is sampled into the probes, its own outcome is returned, except
         for a status given in the round
       The last entry repeats (its scripted x: a real round need not settle) up
       to `limit` calls; then TooManyRounds."""

    def __init__(self, rounds, env, limit=60, on_round=None):
        self.rounds = rounds
        self.env = env
        self.limit = limit
        self.calls = []
        self.on_round = on_round
        self.inspect = None         # (record, objective, start, arguments, keywords) of every call

    def __call__(self, fun, x0=None, *args, **kw):
        i = len(self.calls)
        if i >= self.limit:
            raise TooManyRounds("solver called %d times" % (i + 1))
        r = self.rounds[min(i, len(self.rounds) - 1)]
        x0 = np.array([float(a) for a in x0])
        n = len(x0)
        rec = {"i": i, "x0": x0.tolist(), "probes": [], "n": n}
        self.calls.append(rec)
        cons = kw.get("constraints", args[5] if len(args) > 5 else None)
        cfuns = []
        for c in (cons if isinstance(cons, (list, tuple)) else [cons]):
            if c is None:
                continue
            if isinstance(c, dict):
                cfuns.append(negated(c["fun"]) if c.get("type") == "ineq" else c["fun"])
            elif hasattr(c, "fun"):
                cfuns.append(negated(c.fun) if at_least_zero(c) else c.fun)
        rec["ncons"] = len(cfuns)
        work = np.array(x0)
        for p in r.get("probes", []):
            pv = np.array(vec(p, n))
            if r.get("reuse"):
                work[:] = pv
                arg = work
            else:
                arg = pv.copy()
            fv = float(fun(arg))
            cv = [float(a) for cf in cfuns for a in np.atleast_1d(cf(arg))]
            same = bool(np.array_equal(arg, pv))
            rec["probes"].append({"x": pv.tolist(), "fun": fv, "con": cv, "same": same})
            self.env.probe("solver_probe")
        if self.on_round:
            self.on_round(rec, fun, cfuns)
        if self.inspect:
            self.inspect(rec, fun, x0, args, kw)
        if r.get("exc"):
            rec["exc"] = r["exc"]
            self.env.fault("solver_raises_%s" % r["exc"])
            raise EXCS[r["exc"]]("scripted")
        if r.get("real") and i < len(self.rounds):
            return self.really(fun, x0, args, kw, r, rec, cfuns, i)
        if isinstance(r.get("x"), dict):
            x = x0 * np.array(vec(r["x"]["rel"], n))
        elif r.get("x") is None:
            x = x0.copy()
        else:
            x = np.array(vec(r["x"], n))
        f = r.get("fun", "eval")
        if f == "eval":
            f = float(fun(x.copy()))
        else:
            f = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}.get(f, f)
        cv = r.get("cv", 0.0)
        if cv == "eval":
            vals = [float(a) for cf in cfuns for a in np.atleast_1d(cf(x.copy()))]
            cv = max([0.0] + vals)
        elif cv == "nan":
            cv = float("nan")
        st = 1 if r.get("status") is None else int(r["status"])
        rec.update(x=x.tolist(), fun=float(f), cv=float(cv), status=st,
                   success=bool(r.get("success", st in (1, 2))), message=str(r.get("message", "scripted %d" % i)))
        if st in (0, 3):
            self.env.fault("solver_not_converged")
        if abs(rec["cv"]) >= 0.001 or rec["cv"] != rec["cv"]:
            self.env.fault("solver_infeasible")
        if any(a < 0 for a in rec["x"]):
            self.env.fault("solver_negative_frequency")
        if rec["fun"] != rec["fun"]:
            self.env.fault("solver_nan_cost")
        res = so.OptimizeResult(x=x, fun=f, success=rec["success"], status=st, message=rec["message"],
                                constr_violation=cv, nit=3 + i, niter=3 + i, nfev=10, njev=10, nhev=0,
                                execution_time=0.0, tr_radius=1.0, constr_penalty=1.0, barrier_parameter=0.1,
                                barrier_tolerance=0.1, optimality=0.0, grad=np.zeros(n), lagrangian_grad=np.zeros(n),
                                constr=[np.zeros(1)], jac=[np.zeros((1, n))], v=[np.zeros(1)], cg_niter=0,
                                cg_stop_cond=1, method="simulated")
        return res

    def really(self, fun, x0, args, kw, r, rec, cfuns, i):
        visits = [0]

        def seen(x, *a):
            before = np.array(x)
            fv = fun(x, *a)
            visits[0] += 1
            if visits[0] in (1, 2) or visits[0] % 41 == 0:
                same = bool(np.array_equal(before, np.asarray(x)))
                if len(rec["probes"]) < 12 and np.all(before > 0):
                    cv = [float(q) for cf in cfuns for q in np.atleast_1d(cf(before.copy()))]
                    rec["probes"].append({"x": before.tolist(), "fun": float(fv), "con": cv, "same": same})
            return fv
        kw = dict(kw)
        kw["options"] = dict(kw.get("options") or {}, maxiter=int(r["real"]["maxiter"]))
        self.env.probe("real_solver_round")
        res = _real(seen, x0, *args, **kw)
        self.env.probe("real_solver_visit", visits[0])
        if r.get("status") is not None:
            res.status = int(r["status"])
        res.message = "scripted %d, %s" % (i, res.message)
        rec.update(x=[float(a) for a in res.x], fun=float(res.fun), cv=float(res.constr_violation), status=int(res.status), success=bool(res.success),
                   message=str(res.message), real=True)
        if rec["status"] in (0, 3):
            self.env.fault("solver_not_converged")
        return res
