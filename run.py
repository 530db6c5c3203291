#!/usr/bin/env python3
"""Entry point:  run.py check ID | replay FILE | selfcheck [IDS] | setup

Re-executes itself under the repository's interpreter with every ambient source
of nondeterminism pinned (hash seed, BLAS threads, address layout, backend,
locale), then hands over to vsim.engine.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"


def reexec():
    env = dict(os.environ)
    scratch = env.get("VSIM_SCRATCH")
    owner = False
    if not scratch:
        base = env.get("TMPDIR") or "/tmp"
        scratch = tempfile.mkdtemp(prefix="vsim-", dir=base)
        owner = True
    env.update(VSIM_CHILD="1", VSIM_SCRATCH=scratch, VSIM_REPO=REPO,
               PYTHONHASHSEED=env.get("VSIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=REPO + os.pathsep + HERE, MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONWARNINGS="ignore", TZ="UTC")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    if not env.get("VSIM_ASLR"):
        try:                                   # identical addresses in every process, where allowed
            import ctypes
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
    argv = [PY, "-s", os.path.join(HERE, "run.py")] + sys.argv[1:]
    if not owner:
        os.execve(PY, argv, env)
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.execve(PY, argv, env)
    code = 2
    try:
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        if code < 0:
            print("HARNESS-ERROR: checker ended by signal %d" % -code, file=sys.stderr)
            code = 2
    finally:
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    if os.environ.get("VSIM_CHILD") != "1":
        reexec()
    os.chdir(os.environ["VSIM_SCRATCH"])
    from vsim import engine
    sys.exit(engine.main(sys.argv[1:]))
