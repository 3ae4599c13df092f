"""Entry point: run.py C01 [--tier quick|thorough] [--seed N] [--replay stage:index]"""
import os, sys
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "VTK_SMP_MAX_THREADS": "1", "PYTHONHASHSEED": "0",
       "PYTHONIOENCODING": "utf8", "LANG": "C.UTF-8"}
PYEXE = "/opt/venv/bin/python"
if os.environ.get("VP_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["VP_CHILD"] = "1"
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    os.execve(PYEXE, [PYEXE] + sys.argv, env)

import argparse, importlib, tempfile, shutil, atexit, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
p = argparse.ArgumentParser()
p.add_argument("prop")
p.add_argument("--tier", default=None)
p.add_argument("--seed", default=None)
p.add_argument("--replay", default=None)
a = p.parse_args()
ERR = os.dup(2)
if os.environ.get("VP_STDERR") != "1":
    # worker processes of the code under test log to stderr
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)
import signal
faulthandler.register(signal.SIGUSR1, file=ERR, chain=False)
LIMIT = 780 if (a.tier or os.environ.get("VERIF_TIER")) != "thorough" else 6000
faulthandler.dump_traceback_later(LIMIT, exit=True, file=ERR)
os.environ.pop("VP_CHILD")
scratch = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
atexit.register(shutil.rmtree, scratch, True)
os.environ["TMPDIR"] = scratch
tempfile.tempdir = scratch
import warnings
warnings.simplefilter("ignore")
import core
mod = importlib.import_module("checks."+a.prop.lower())
only = None
if a.replay:
    s, i = a.replay.rsplit(":", 1)
    only = (s, int(i))
ctx = core.Ctx(a.prop, mod.RULE, getattr(mod, "ASSUMPTIONS", ()), a.tier, a.seed, only)
ctx.scratch = scratch
faulthandler.register(signal.SIGALRM, file=ERR, chain=True)
ctx.on_fork = lambda: signal.alarm(LIMIT-40)
os.chdir(scratch)
try:
    mod.run(ctx)
except BaseException:
    import traceback
    ctx.harness_errors.append(("run", -1, traceback.format_exc()))
if "joblib.externals.loky" in sys.modules:
    # idle worker processes would keep the output open
    try:
        from joblib.externals.loky import get_reusable_executor
        from joblib.externals.loky.reusable_executor import _executor
        if _executor is not None:
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
    except Exception:
        pass
rc = ctx.finish()
sys.stdout.flush()
os.chdir("/")
shutil.rmtree(scratch, True)
os._exit(rc)
