"""C06: sweep scheduling."""
import os, json, time
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("random dependency forests (definition order shuffled) through the sweep runner with a recording compute function (start/end events with parameters and initial vectors, "
        "serial and worker processes, injected delays and failures), cyclic/self/unknown dependencies; real sweeps through the solver, where the recorded initial power proves from "
        "which solution a sweep started, compared with isolated solves; non-trivial: distinct forests with at least one dependency")
ASSUMPTIONS = ["the event log stage hooks pypeec.lib_solver.sweep_joblib.get_run_sweep and is skipped if it does not exist; the solver stage uses the public interface only"]


def forest(rng, n, chain=0.6):
    names = ["s%d_%s" % (k, "".join(rng.choice(list("abcxyz"), 3))) for k in range(n)]
    init = {}
    for k, t in enumerate(names):
        init[t] = None if (k == 0 or rng.random() > chain) else names[int(rng.integers(0, k))]
    order = list(names); rng.shuffle(order)
    return {t: init[t] for t in order}


def run(ctx):
    try:
        from pypeec.lib_solver import sweep_joblib
        runner = getattr(sweep_joblib, "get_run_sweep", None)
    except ImportError:
        runner = None

    def recorder(path, fail=None, slow=()):
        def fct(tag, param, init):
            def log(ev):
                line = json.dumps({"ev": ev, "tag": tag, "param": param, "init": None if init is None else [complex(z).real for z in init], "t": time.monotonic(), "pid": os.getpid()})+"\n"
                fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, line.encode())
                os.close(fd)
            log("start")
            if tag in slow:
                time.sleep(0.03)
            if tag == fail:
                raise RuntimeError("injected failure of "+tag)
            log("end")
            return {"tag": tag, "value": param["x"]*10}, np.array([param["x"], 0.5])
        return fct

    def check_log(path, init, x, fail=None):
        """Offline checker over the event log."""
        ev = [json.loads(z) for z in open(path)] if os.path.exists(path) else []
        started, ended = {}, {}
        for k, e in enumerate(ev):
            t = e["tag"]
            if e["ev"] == "start":
                ctx.expect(t not in started, "a sweep is solved once", tag=t)
                started[t] = k
                ctx.expect(t in init, "only defined sweeps are solved", tag=t)
                p = init.get(t)
                ctx.expect(e["param"] == {"x": x[t]}, "a sweep gets its own parameters", tag=t, got=e["param"])
                if p is None:
                    ctx.expect(e["init"] is None, "a sweep without dependency starts without a guess", tag=t, got=e["init"])
                else:
                    ctx.expect(p in ended, "a sweep starts after the sweep it depends on", tag=t, init=p)
                    ctx.expect(e["init"] == [x[p], 0.5], "a sweep starts from the solution of its dependency", tag=t, init=p, got=e["init"], want=[x[p], 0.5])
            else:
                ended[t] = k
        ctx.count("events", len(ev))
        if fail is None:
            ctx.expect(set(started) == set(init) and set(ended) == set(init), "all sweeps are solved", missing=sorted(set(init)-set(ended)))
        else:
            ctx.expect(fail not in ended, "failing sweep")
        return ev

    def events(rng, i, par):
        n = int(rng.integers(1, 9)) if not par else int(rng.integers(2, 7))
        if i % 9 == 4:
            n = int(rng.integers(10, 40 if not par else 16))
        init = forest(rng, n, float(rng.choice([0.0, 0.5, 0.8, 1.0])))
        x = {t: float(k+1) for k, t in enumerate(init)}
        path = os.path.join(ctx.scratch, "ev_%s_%d" % (par, i))
        fail = str(rng.choice(list(init))) if rng.random() < 0.3 else None
        slow = [t for t in init if rng.random() < 0.3] if par else []
        nj = par
        sw = {t: {"init": init[t], "param": {"x": x[t]}} for t in init}
        opt = {"n_jobs": nj, "n_threads": None if rng.random() < 0.5 else 1}
        ctx.case({"init": init, "n_jobs": nj, "fail": fail}, sum(v is not None for v in init.values()) > 0)
        try:
            out = runner(opt, sw, recorder(path, fail, slow))
        except Exception as ex:
            ctx.expect(fail is not None, "unexpected failure: %s: %s" % (type(ex).__name__, str(ex)[:200]))
            check_log(path, init, x, fail or "")
            ctx.count("failing_runs")
            return
        ctx.expect(fail is None, "a failing sweep makes the call fail", fail=fail)
        check_log(path, init, x)
        ctx.expect(set(out) == set(init), "every result is returned", got=sorted(out))
        for t in out:
            ctx.expect(out[t] == {"tag": t, "value": x[t]*10}, "the result is returned under its name", tag=t, got=out[t])
        ctx.count("runs_parallel" if nj else "runs_serial")
        os.remove(path)

    def bad(rng, i):
        n = int(rng.integers(1, 7)) if i % 7 else int(rng.integers(10, 40))
        init = forest(rng, n)
        names = list(init)
        kind = i % 3
        if kind == 0:
            t = str(rng.choice(names)); init[t] = t
        elif kind == 1:
            init[str(rng.choice(names))] = "unknown"
        else:
            # make a cycle: the root of a chain depends on a descendant
            names = ["q%d" % k for k in range(max(2, n))]
            init = {**{t: names[(k+1) % len(names)] for k, t in enumerate(names)}, **(init if rng.random() < 0.5 else {})}
            keys = list(init); rng.shuffle(keys)
            init = {t: init[t] for t in keys}
        x = {t: float(k+1) for k, t in enumerate(init)}
        path = os.path.join(ctx.scratch, "bad_%d" % i)
        sw = {t: {"init": init[t], "param": {"x": x[t]}} for t in init}
        ctx.case({"init": init})
        ctx.raises(runner, {"n_jobs": 0, "n_threads": None}, sw, recorder(path), what="dependencies %s" % init)
        ctx.expect(not os.path.exists(path), "invalid dependencies are rejected before anything is solved", log=open(path).read()[:500] if os.path.exists(path) else None)
        ctx.count("invalid_dependencies")

    # the runner is an internal function: only hooked if it still has the known interface
    if runner is not None:
        path = os.path.join(ctx.scratch, "probe")
        try:
            out = runner({"n_jobs": 0, "n_threads": None}, {"a": {"init": None, "param": {"x": 1.0}}}, recorder(path))
            ok = out == {"a": {"tag": "a", "value": 10.0}} and [json.loads(z)["ev"] for z in open(path)] == ["start", "end"]
        except Exception:
            ok = False
        runner = runner if ok else None
    if runner is not None:
        ctx.loop("events", ctx.n(250, 3000), lambda rng, i: events(rng, i, 0))
        ctx.loop("bad", ctx.n(90, 600), bad)
        ctx.loop("parallel", ctx.n(25, 150), lambda rng, i: events(rng, i, int(rng.choice([1, 2, 3]))))
    else:
        ctx.count("event_stage_skipped")

    def real(rng, i, par):
        n = int(rng.integers(2, 7)) if i % 7 != 5 else int(rng.integers(9, 18))
        P = gen.random_problem(rng, n_mag=int(i % 2))
        init = forest(rng, n, 0.7)
        f0 = P["param"]["freq"] or 1e3
        sw = {}
        vals = {}
        for t in init:
            k = float(rng.uniform(0.5, 2))
            f = 0.0 if rng.random() < 0.2 else f0*float(rng.choice([1.0, 1.5, 3.0]))
            Q = lib.clone(P)
            for s, v in Q["param"]["source_val"].items():
                for key in v:
                    if key[0] in "VI":
                        v[key] = (np.asarray(v[key])*k).tolist()
            Q["param"]["freq"] = f
            vals[t] = Q
            sw[t] = {"init": init[t], "param": Q["param"]}
        vx = lib.mesh(ctx, P)
        coupling = "segregated" if rng.random() < 0.4 else "direct"
        ctx.count("real_"+coupling)
        seg = {"n_min": int(rng.integers(1, 4)), "n_max": int(rng.choice([1, 2, 60])), "relax_electric": float(rng.choice([1.0, 0.8, 0.5])), "relax_magnetic": float(rng.choice([1.0, 0.8, 0.5]))}
        opt = gen.tol(parallel_sweep={"n_jobs": par, "n_threads": 1 if par else None}, solver_options={"coupling": coupling, "direct_options": {"rel_tol": 1e-10}, "segregated_options": seg})
        r = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), opt)["data_sweep"]
        ctx.case({**gen.describe(P), "init": init, "par": par, "coupling": coupling}, any(v for v in init.values()))
        ctx.expect(set(r) == set(sw), "every sweep is returned", got=sorted(r))
        for t in init:
            s = r[t]
            ctx.expect(s["freq"] == vals[t]["param"]["freq"], "the result belongs to the parameters of the sweep", tag=t)
            sc = lib.View(vals[t], s).scales()
            p = init[t]
            fp = lambda f: 1.0 if f == 0 else 0.5
            if p is None:
                ctx.close(s["conv"]["power_init"], 0.0, 0, "a sweep without dependency starts from zero", scale=1.0)
            else:
                want = r[p]["integral"]["S_total"]/fp(r[p]["freq"])*fp(s["freq"])
                ctx.close(s["conv"]["power_init"], want, 1e-9, "a sweep starts from the solution of its dependency", scale=max(abs(want), 1e-12*sc["S"]), tag=t)
            # isolated solve
            if rng.random() < (0.6 if not par else 0.3):
                one = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, {"x": {"init": None, "param": vals[t]["param"]}}), gen.merge(opt, {"parallel_sweep": {"n_jobs": 0}}))["data_sweep"]["x"]
                if one["has_converged"] and s["has_converged"]:
                    lib.compare_outputs(ctx, one, s, sc, 1e-5, "sweep against its isolated solve")
                    ctx.count("isolated_compared")
                else:
                    ctx.count("isolated_not_converged")
        ctx.count("real_parallel" if par else "real_serial")

    def real_bad(rng, i):
        P = gen.random_problem(rng)
        vx = lib.mesh(ctx, P)
        sw = {"a": {"init": None, "param": P["param"]}, "b": {"init": ["b", "zz", "c"][i % 3], "param": P["param"]}, "c": {"init": "b", "param": P["param"]}}
        ctx.case({"bad": i % 3, "P": gen.describe(P)})
        ctx.raises(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(), what="sweep dependencies %s" % {k: v["init"] for k, v in sw.items()})
        # a sweep that cannot be solved: invalid parameter length, reached after other sweeps
        bad = lib.clone(P["param"])
        tag = sorted(P["material_def"])[0]
        md = P["material_def"][tag]
        key = sorted(bad["material_val"][tag])[0]
        bad["material_val"][tag][key] = [1.0]*97 if md["var_type"] == "distributed" else "x"
        sw = {"a": {"init": None, "param": P["param"]}, "b": {"init": "a", "param": bad}}
        ctx.raises(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(), what="a sweep with unusable parameters")

    ctx.ploop("real", ctx.n(40, 500), lambda rng, i: real(rng, i, 0))
    ctx.ploop("real_bad", ctx.n(18, 100), real_bad)
    ctx.loop("real_parallel", ctx.n(4, 30), lambda rng, i: real(rng, i, 2))
