"""C23: convergence flags, residuals, power history and iteration limits."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("random problems (single-voxel sources, so that the whole solution vector can be rebuilt from the outputs) solved with random tolerances, iteration limits, couplings, Krylov "
        "solvers, power-stop rules and ignore flags, mostly stopped far from convergence; the residual is recomputed with the independent dense system; flags, limits and the recorded "
        "power history are checked offline; non-trivial: residual above rounding")
ASSUMPTIONS = ["the interaction of distant voxels is accurate to 1e-9 (cancellation in the closed formulas), residuals below that part of the largest term are not judged", "rows of the dense reference system are those of the documented system; residual magnitudes are compared as sorted sets"]


def single_sources(rng, P):
    """Every source on one voxel (new domains are split off)."""
    for t, sd in P["source_def"].items():
        idx = model.dom_idx(P["dom"], sd["domain_list"])
        v = int(rng.choice(idx))
        owner = [k for k, x in P["dom"].items() if v in x][0]
        x = P["dom"][owner]
        k = x.index(v)
        val = P["param"]["source_val"][t]
        if sd["var_type"] == "distributed":
            p = idx.index(v)
            P["param"]["source_val"][t] = {q: [z[p]] for q, z in val.items()}
        if len(x) > 1:
            new = {}
            names = []
            for q, y in P["dom"].items():
                if q != owner:
                    new[q] = y
                    continue
                for part, suffix in ((x[:k], "l"), ([v], "s"), (x[k+1:], "r")):
                    if part:
                        new[q+suffix] = part
                        names.append(q+suffix)
            P["dom"] = new
            for md in list(P["material_def"].values())+list(P["source_def"].values()):
                if owner in md["domain_list"] and md is not sd:
                    i = md["domain_list"].index(owner)
                    md["domain_list"][i:i+1] = names
            sd["domain_list"] = [owner+"s"]
        else:
            sd["domain_list"] = [owner]
    return P


def dense_residual(P, s):
    """|M x - rhs| with x rebuilt from the outputs, and rhs norm."""
    S = model.assemble(P)
    v = lib.View(P, s)
    c, m, L, Pm, Km, src = S["c"], S["m"], S["L"], S["P"], S["Km"], S["src"]
    jw = 2j*np.pi*S["freq"]
    Ic, Vc, Im, Vm = v.I_fc, var(s, "V_c"), v.I_fm, var(s, "V_m")
    Isrc = np.array([s["source"][tag]["I"] for (tag, typ, pos, x, y) in src])
    r1 = c.R*Ic+jw*(L@Ic)-c.A.T@Vc+jw*(Km.T@Im)
    r2 = c.A@Ic
    r3 = []
    rhs = []
    for k, (tag, typ, pos, x, y) in enumerate(src):
        r2[pos] = r2[pos]-Isrc[k]
        r3.append((Isrc[k]+y*Vc[pos]-x) if typ == "current" else (Vc[pos]+y*Isrc[k]-x))
        rhs.append(x)
    r4 = m.R*Im-m.A.T@Vm-Km@Ic
    r5 = Vm+Pm@(m.A@Im)
    res = np.concatenate([r1, r2, np.array(r3), r4, r5])
    mag = [np.abs(c.R)*np.abs(Ic)+abs(jw)*(np.abs(L)@np.abs(Ic))+np.abs(c.A.T)@np.abs(Vc)]
    floor = 1e-13*max([lib.amax(x) for x in (mag[0], Ic, Vc, m.R*Im, Vm, rhs, Isrc)]+[lib.amax(Pm)*lib.amax(Im)*4 if len(Im) else 0])
    return res, np.linalg.norm(rhs), floor, (len(c.faces)+len(c.vox)+len(src), len(m.faces)+len(m.vox))


def rule_at(vec, k, po):
    """Power stop rule after k recorded iterations."""
    n_min = max(2, po["n_cmp"]+1, po["n_min"])
    if k < n_min:
        return False, np.inf, 0
    ref = vec[k-1]
    cmp_ = np.asarray(vec[max(0, k-1-po["n_cmp"]):k-1])
    err = np.max(np.abs(ref-cmp_))
    thr = max(po["rel_tol"]*abs(ref), po["abs_tol"])
    return err <= thr, err, thr


def options(rng):
    def it(lim=True):
        return {"solver": str(rng.choice(["gmres", "gcrot"])), "rel_tol": float(10**rng.uniform(-9, -1)), "abs_tol": float(10**rng.uniform(-30, -2)),
                "n_inner": int(rng.integers(1, 8)), "n_outer": int(rng.choice([1, 2, 3, 6, 40]))}
    so = {"coupling": str(rng.choice(["direct", "direct", "segregated"])),
          "tolerance_options": {"ignore_status": bool(rng.random() < 0.4), "ignore_res": bool(rng.random() < 0.5), "rel_tol": float(10**rng.uniform(-9, -1)), "abs_tol": float(10**rng.uniform(-14, -3))},
          "power_options": {"stop": bool(rng.random() < 0.5), "n_min": int(rng.integers(1, 8)), "n_cmp": int(rng.integers(1, 5)), "rel_tol": float(10**rng.uniform(-10, -1)), "abs_tol": float(10**rng.uniform(-20, -6))},
          "direct_options": it(),
          "segregated_options": {"rel_tol": float(10**rng.uniform(-8, -1)), "abs_tol": float(10**rng.uniform(-20, -2)), "relax_electric": float(rng.uniform(0.5, 1.0)), "relax_magnetic": float(rng.uniform(0.5, 1.0)),
                                 "n_min": int(rng.integers(1, 5)), "n_max": int(rng.integers(1, 12)), "iter_electric_options": it(), "iter_magnetic_options": it()}}
    so["segregated_options"]["n_max"] = max(so["segregated_options"]["n_max"], so["segregated_options"]["n_min"])
    co = {"check": bool(rng.random() < 0.7), "tolerance_electric": float(rng.choice([1e80, 1.5])), "tolerance_magnetic": float(rng.choice([1e80, 1e80, 1.5])), "norm_options": {"t_accuracy": 2, "n_iter_max": 25}}
    return so, co


def run(ctx):
    def offline(P, s, so, co, parent=None):
        st, cv = s["solver_status"], s["conv"]
        to, po = so["tolerance_options"], so["power_options"]
        res = np.asarray(s["res"])
        ref, nrhs, floor, (nc, nm) = dense_residual(P, s)
        nres = float(np.linalg.norm(ref))
        ctx.expect(st["n_dof_electric"] == nc and st["n_dof_magnetic"] == nm and st["n_dof_total"] == nc+nm == len(res), "degrees of freedom", got=[st["n_dof_electric"], st["n_dof_magnetic"], len(res)], want=[nc, nm])
        if len(res) == nc+nm:
            ctx.close(np.sort(np.abs(res)), np.sort(np.abs(ref)), 1e-4, "residual of the returned solution", scale=nres+floor*3e8)
        ctx.close(st["res_val"], float(np.linalg.norm(res)), 1e-9, "res_val is the norm of the residual")
        ctx.close(st["res_val"], nres, 1e-4, "res_val is the norm of the true residual", scale=nres+floor*3e8)
        thr = max(to["rel_tol"]*nrhs, to["abs_tol"])
        ctx.close(st["res_thr"], thr, 1e-9, "res_thr is the residual threshold")
        # flags
        ok = bool(s["solver_ok"])
        ctx.expect(isinstance(s["has_converged"], (bool, np.bool_)), "flags are booleans")
        ctx.expect(bool(s["has_converged"]) == (ok and bool(s["condition_ok"])), "has_converged combines the solver and condition flags")
        ctx.expect(bool(st["status"]) == ok, "the solver flag is the solver status")
        ctx.expect(bool(s["condition_status"]["status"]) == bool(s["condition_ok"]), "the condition flag is the condition status")
        res_ok = st["res_val"] < st["res_thr"]
        if not to["ignore_res"] and ok:
            ctx.expect(res_ok, "flagged converged with a residual above the threshold", res=st["res_val"], thr=st["res_thr"])
        if to["ignore_status"]:
            ctx.expect(ok == (True if to["ignore_res"] else bool(res_ok)), "with the solver status ignored the flag follows the residual criterion", res=st["res_val"], thr=st["res_thr"], ok=ok)
        # iterations and history
        n = st["n_iter"]
        vec = list(cv["power_vec"])
        ctx.expect(len(vec) == n, "one recorded power per iteration", n_iter=n, recorded=len(vec))
        Stot = s["integral"]["S_total"]
        sc = lib.View(P, s).scales()
        ctx.close(cv["power_final"], Stot, 1e-9, "final power of the history is the power of the solution", scale=max(abs(Stot), 1e-6*sc["S"]))
        if parent is None:
            ctx.close(cv["power_init"], 0.0, 0, "the history starts from the zero solution", scale=1.0)
        else:
            ctx.close(cv["power_init"], parent, 1e-9, "the history starts from the initial guess", scale=max(abs(parent), 1e-12*sc["S"]))
        stopped = False
        if po["stop"] and n:
            hold, err, t = rule_at(vec, n, po)
            stopped = hold
            for k in range(1, n):
                h, e, t = rule_at(vec, k, po)
                ctx.expect(not h or e > t*(1-1e-9), "the iterations stop as soon as the power has converged", at=k, n_iter=n, err=e, thr=t, options=po)
        seg = so["coupling"] == "segregated"
        sg, do = so["segregated_options"], so["direct_options"]
        if seg:
            ctx.expect(n <= sg["n_max"], "segregated iterations limited by n_max", n_iter=n, n_max=sg["n_max"])
            if not stopped:
                ctx.expect(n >= min(sg["n_min"], sg["n_max"]), "at least n_min segregated iterations", n_iter=n, n_min=sg["n_min"])
        elif do["solver"] == "gmres":
            ctx.expect(n <= do["n_outer"], "outer iterations are limited", n_iter=n, n_outer=do["n_outer"])
        if not seg:
            # each cycle is bounded by its inner iterations
            ctx.expect(st["n_sys_eval"] <= (do["n_outer"]+1)*(2*do["n_inner"]+6)+4, "operator evaluations are limited", n=st["n_sys_eval"], options=do)
        # solver status: tolerance reached or power rule
        own = (sg if seg else do)
        tol = max(own["rel_tol"]*nrhs, own["abs_tol"])
        if not to["ignore_status"] and ok and not stopped:
            ctx.expect(st["res_val"] <= tol*1.001+floor*100, "the solver reports success only at its tolerance (or with converged power)", res=nres, tol=tol, seg=seg, power=po, n_iter=n)
            ctx.count("success_by_residual")
        if not to["ignore_status"] and ok and stopped:
            ctx.count("success_by_power")
        if not to["ignore_status"] and to["ignore_res"] and not ok:
            ctx.expect(not (po["stop"] and stopped), "a converged power is a success", power=po)
            if not seg and do["solver"] == "gmres":
                ctx.expect(st["res_val"] > 0.99*tol-floor*100, "a reached tolerance is a success", res=nres, tol=tol)
            ctx.count("failure_reported")
        if co["check"] is False:
            ctx.expect(bool(s["condition_ok"]), "disabled condition check passes")
        ctx.count("flag_%s" % bool(s["has_converged"]))
        return nres > 1e3*floor

    def case(rng, i):
        P = single_sources(rng, gen.random_problem(rng, n_mag=int(i % 2), max_vox=10))
        so, co = options(rng)
        opt = gen.tol(solver_options=so, condition_options=co)
        par = P["param"]
        f = par["freq"]
        sw = {"sim": {"init": None, "param": par}}
        if i % 3 == 0:
            sw["b"] = {"init": "sim", "param": gen.merge(par, {"freq": f*2 if f else 0.0})}
        vx = lib.mesh(ctx, P)
        try:
            sol = pypeec.run_solver_data(vx, gen.data_problem(P, sw), opt)
        except Exception as ex:
            if so["coupling"] == "segregated" and lib.overflow(ex):
                ctx.count("overflow_refused")
                return
            ctx.fail("unexpected exception on valid input: %s: %s" % (type(ex).__name__, str(ex)[:200]), abort=True)
        r = sol["data_sweep"]
        fin = all(np.all(np.isfinite(var(s, "V_c"))) for s in r.values())
        if not fin:
            ctx.count("diverged")
            return
        nt = offline(P, r["sim"], so, co)
        if "b" in r:
            Q = dict(P); Q["param"] = sw["b"]["param"]
            offline(Q, r["b"], so, co, parent=r["sim"]["integral"]["S_total"])
        want = all(bool(s["has_converged"]) for s in r.values())
        ctx.expect(bool(sol["status"]) == want, "the overall status is the conjunction of the sweeps", status=sol["status"], flags={t: bool(s["has_converged"]) for t, s in r.items()})
        ctx.case({**gen.describe(P), "solver": so, "condition": co}, nt)

    def power_case(rng, i):
        # slow convergence with a power stop: the stop must come from the rule
        P = single_sources(rng, gen.random_problem(rng, n_mag=1, max_vox=14, nmax=(6, 5, 4)))
        seg = i % 3 == 0
        so = {"coupling": "segregated" if seg else "direct",
              "tolerance_options": {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9},
              "power_options": {"stop": True, "n_min": int(rng.integers(1, 8)), "n_cmp": int(rng.integers(1, 6)), "rel_tol": float(10**rng.uniform(-6, -1)), "abs_tol": 1e-30},
              "direct_options": {"solver": str(rng.choice(["gmres", "gcrot"])), "rel_tol": 1e-14, "abs_tol": 1e-60, "n_inner": int(rng.integers(1, 3)), "n_outer": 60},
              "segregated_options": {"rel_tol": 1e-14, "abs_tol": 1e-60, "relax_electric": 0.6, "relax_magnetic": 0.6, "n_min": 1, "n_max": 60,
                                     "iter_electric_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-60, "n_inner": 40, "n_outer": 20},
                                     "iter_magnetic_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-60, "n_inner": 40, "n_outer": 20}}}
        if i % 6 == 1:
            # very long runs: more than a hundred recorded iterations
            so["power_options"].update(stop=bool(i % 4 == 1), n_min=int(rng.integers(100, 200)), rel_tol=float(10**rng.uniform(-6, -1)))
            so["direct_options"].update(solver="gmres", rel_tol=float(10**rng.uniform(-13, -8)), n_inner=1, n_outer=int(rng.integers(150, 400)))
            P["param"]["freq"] = max(P["param"]["freq"], 1e3)*float(10**rng.uniform(1, 3))
            ctx.count("long_runs")
        co = {"check": True, "tolerance_electric": 1e80, "tolerance_magnetic": 1e80}
        vx = lib.mesh(ctx, P)
        try:
            sol = pypeec.run_solver_data(vx, gen.data_problem(P), gen.tol(solver_options=so, condition_options=co))
        except Exception as ex:
            if seg and lib.overflow(ex):
                ctx.count("overflow_refused")
                return
            ctx.fail("unexpected exception on valid input: %s: %s" % (type(ex).__name__, str(ex)[:200]), abort=True)
        s = sol["data_sweep"]["sim"]
        if not np.all(np.isfinite(var(s, "V_c"))):
            ctx.count("diverged")
            return
        nt = offline(P, s, gen.tol(solver_options=so)["solver_options"], gen.tol(condition_options=co)["condition_options"])
        ctx.expect(bool(sol["status"]) == bool(s["has_converged"]), "overall status")
        if s["solver_status"]["n_iter"] > 100:
            ctx.count("more_than_100_iterations")
            ctx.count("long_%s" % bool(s["has_converged"]))
        ctx.case({**gen.describe(P), "solver": so}, nt)

    def substatus(rng, i):
        # one of the two segregated solvers cannot reach its tolerance: the sweep cannot be successful before the last iteration
        P = single_sources(rng, gen.random_problem(rng, n_mag=1, max_vox=14, nmax=(5, 4, 4)))
        which = ["magnetic", "electric", "none"][i % 3]
        it = lambda bad: ({"solver": "gmres", "rel_tol": 0.0, "abs_tol": 1e-300, "n_inner": 30, "n_outer": 1} if bad else
                          {"solver": str(rng.choice(["gmres", "gcrot"])), "rel_tol": 1e-3, "abs_tol": 1e-60, "n_inner": 40, "n_outer": 20})
        n_min = int(rng.integers(1, 4))
        so = {"coupling": "segregated", "tolerance_options": {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9},
              "power_options": {"stop": False, "n_min": 1, "n_cmp": 1, "rel_tol": 1e-3, "abs_tol": 1e-30}, "direct_options": it(False),
              "segregated_options": {"rel_tol": 0.5, "abs_tol": 1e-60, "relax_electric": 1.0, "relax_magnetic": 1.0, "n_min": n_min, "n_max": n_min+int(rng.integers(1, 7)),
                                     "iter_electric_options": it(which == "electric"), "iter_magnetic_options": it(which == "magnetic")}}
        co = {"check": False}
        vx = lib.mesh(ctx, P)
        try:
            sol = pypeec.run_solver_data(vx, gen.data_problem(P), gen.tol(solver_options=so, condition_options=co))
        except Exception as ex:
            if lib.overflow(ex):
                ctx.count("overflow_refused")
                return
            ctx.fail("unexpected exception on valid input: %s: %s" % (type(ex).__name__, str(ex)[:200]), abort=True)
        s = sol["data_sweep"]["sim"]
        if not np.all(np.isfinite(var(s, "V_c"))):
            ctx.count("diverged")
            return
        st, sg = s["solver_status"], so["segregated_options"]
        offline(P, s, gen.tol(solver_options=so)["solver_options"], gen.tol(condition_options=co)["condition_options"])
        ctx.case({**gen.describe(P), "solver": so}, True)
        nc, nm = st["n_dof_electric"], st["n_dof_magnetic"]
        res = np.asarray(s["res"])
        if which == "none":
            ctx.count("both_reached")
        elif nc >= 12 and nm >= 12 and np.any(res[nc:] != 0) and np.any(res[:nc] != 0):
            ctx.expect(not s["solver_ok"] and not s["has_converged"], "a sweep is not successful when one of the two solvers fails", which=which, status=st)
            ctx.expect(st["n_iter"] == sg["n_max"], "the segregated iterations go on while one of the two solvers fails", which=which, n_iter=st["n_iter"], n_max=sg["n_max"])
            ctx.count("substatus_"+which)

    ctx.ploop("random", ctx.n(200, 3000), case)
    ctx.ploop("substatus", ctx.n(60, 600), substatus)
    ctx.ploop("power", ctx.n(120, 1500), power_case)
    if not ctx.only:
        for k in ("success_by_residual", "success_by_power", "failure_reported", "flag_True", "flag_False"):
            ctx.expect(ctx.counters.get(k, 0) > 0, "workload reaches: "+k)
