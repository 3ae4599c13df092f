"""C24: condition check."""
import numpy as np
import pypeec
import gen, lib, model

RULE = ("random problems; the preconditioner Schur matrices are assembled independently (self inductances and self potentials from quadrature kernels), their exact 1-norm condition numbers are compared "
        "with the reported ones (exactly when the accuracy parameter covers the matrix, within a factor otherwise), then the problem is solved again with limits just above and just below each reported number; "
        "non-trivial: the electric or magnetic condition number is larger than 10")
ASSUMPTIONS = ["1-norm condition numbers agree to 1e-6 when the estimator is exact (accuracy parameter at least the matrix size)"]


def schur(P):
    """Exact condition numbers of the preconditioner Schur complements (electric, magnetic)."""
    X = model.assemble(dict(P))
    c, m, src = X["c"], X["m"], X["src"]
    s = 2j*np.pi*X["freq"]
    nv, ns = len(c.vox), len(src)
    Y = 1/(c.R+s*np.diag(X["L"])) if len(c.faces) else np.zeros(0)
    S = np.zeros((nv+ns, nv+ns), complex)
    S[:nv, :nv] = (c.A*Y)@c.A.T
    for k, (_, typ, pos, x, y) in enumerate(src):
        S[pos, nv+k] = -1.0
        S[nv+k, pos] = y if typ == "current" else 1.0
        S[nv+k, nv+k] = 1.0 if typ == "current" else y
    Sm = None
    if len(m.vox):
        p0 = X["P"][0, 0]
        Sm = np.eye(len(m.vox), dtype=complex)+p0*((m.A/m.R)@m.A.T if len(m.faces) else 0.0)
    return S, Sm


def cond1(A):
    # equilibrated inversion: the matrices mix siemens and unit entries
    r = 1/np.max(np.abs(A), axis=1)
    B = A*r[:, None]
    q = 1/np.max(np.abs(B), axis=0)
    inv = np.linalg.inv(B*q[None, :])*q[:, None]*r[None, :]
    return float(np.linalg.norm(A, 1)*np.linalg.norm(inv, 1))


def run(ctx):
    def one(P, co, **kw):
        vx = lib.mesh(ctx, P)
        return ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P), gen.tol(condition_options=co, **kw))

    def case(rng, i):
        P = gen.random_problem(rng, nmax=(12, 9, 6), n_mag=int(i % 3), max_vox=60) if i % 8 == 4 else gen.random_problem(rng, n_mag=int(i % 3), max_vox=14)
        S, Sm = schur(P)
        want_e, want_m = cond1(S), (cond1(Sm) if Sm is not None else 0.0)
        exact = i % 2 == 0
        t = 400 if exact else int(rng.integers(1, 6))
        base = {"check": True, "tolerance_electric": 1e80, "tolerance_magnetic": 1e80, "norm_options": {"t_accuracy": t, "n_iter_max": 25}}
        sol = one(P, base)
        s = sol["data_sweep"]["sim"]
        cs = s["condition_status"]
        e, m = float(cs["cond_electric"]), float(cs["cond_magnetic"])
        ctx.case({**gen.describe(P), "t": t}, max(want_e, want_m) > 10)
        ctx.expect(cs["check"] is True or cs["check"] == True, "the check is reported as enabled")
        ctx.expect(bool(cs["status"]) and bool(s["condition_ok"]), "condition below the limit is accepted")
        ok0 = bool(s["has_converged"])
        if exact:
            ctx.close(e, want_e, 1e-5, "electric condition number", scale=want_e)
            if Sm is not None:
                ctx.close(m, want_m, 1e-5, "magnetic condition number", scale=want_m)
        else:
            ctx.expect(want_e/(300 if t > 1 else 1e9) <= e <= want_e*(1+1e-5), "electric condition estimate", got=e, want=want_e)
            if Sm is not None:
                ctx.expect(want_m/(300 if t > 1 else 1e9) <= m <= want_m*(1+1e-5), "magnetic condition estimate", got=m, want=want_m)
        if Sm is None:
            ctx.expect(m < 1e-12 or np.isnan(m), "no magnetic matrix: no magnetic condition", got=m)
        else:
            ctx.count("magnetic")
        if not exact:
            # the estimator is randomised: limits around the reported number are not meaningful
            return
        # limits around the reported numbers
        for name, te, tm, good in (("above both", e*1.01, max(m*1.01, 1e-3), True), ("electric below", e*0.99, 1e80, False),
                                   ("magnetic below", 1e80, m*0.99, False), ("both below", e*0.5, m*0.5, False)):
            if name == "magnetic below" and Sm is None:
                continue
            if name == "both below" and Sm is None:
                tm = 1e80
            q = one(P, {**base, "tolerance_electric": te, "tolerance_magnetic": tm})
            r = q["data_sweep"]["sim"]
            ctx.expect(bool(r["condition_ok"]) == good and bool(r["condition_status"]["status"]) == good, "condition flag with limit %s" % name, e=e, m=m, te=te, tm=tm)
            ctx.close([r["condition_status"]["cond_electric"], r["condition_status"]["cond_magnetic"]], [e, m], 1e-9, "condition numbers do not depend on the limits")
            if not good:
                ctx.expect(not r["has_converged"] and not q["status"], "a flagged sweep is not reported as converged (%s)" % name)
                ctx.count("flagged")
            elif ok0:
                ctx.expect(bool(r["has_converged"]) and bool(q["status"]), "an accepted sweep is reported as converged")
        # the flag is about the matrices: disabled check
        q = one(P, {**base, "check": False, "tolerance_electric": 1e-30, "tolerance_magnetic": 1e-30})
        r = q["data_sweep"]["sim"]
        ctx.expect(bool(r["condition_ok"]), "disabled check passes")
        ctx.expect(np.isnan(r["condition_status"]["cond_electric"]) and np.isnan(r["condition_status"]["cond_magnetic"]), "disabled check computes nothing")
        if ok0:
            ctx.expect(bool(r["has_converged"]), "disabled check does not change the convergence")
        # a flagged sweep stays flagged with ignored solver criteria
        q = one(P, {**base, "tolerance_electric": e*0.9}, solver_options={"tolerance_options": {"ignore_status": True, "ignore_res": True}})
        ctx.expect(not q["data_sweep"]["sim"]["has_converged"], "ignored solver criteria do not hide the condition")
        # only one of two sweeps flagged
        sw = {"a": {"init": None, "param": P["param"]}, "b": {"init": None, "param": gen.merge(P["param"], {"freq": P["param"]["freq"]*1e3+1e9})}}
        vx = lib.mesh(ctx, P)
        q = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(condition_options=base, solver_options={"tolerance_options": {"ignore_status": True, "ignore_res": True}, "direct_options": {"n_outer": 1, "n_inner": 2}}))
        ea, eb = (q["data_sweep"][k]["condition_status"]["cond_electric"] for k in "ab")
        if abs(ea-eb) > 0.05*max(ea, eb):
            lim = np.sqrt(ea*eb)
            q = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(condition_options={**base, "tolerance_electric": float(lim)}, solver_options={"tolerance_options": {"ignore_status": True, "ignore_res": True}, "direct_options": {"n_outer": 1, "n_inner": 2}}))
            fl = {k: bool(q["data_sweep"][k]["condition_ok"]) for k in "ab"}
            ctx.expect(fl == {"a": bool(ea < lim), "b": bool(eb < lim)}, "flags per sweep", flags=fl, ea=ea, eb=eb)
            ctx.expect(not q["status"], "one flagged sweep makes the overall status false")
            ctx.count("per_sweep")

    ctx.ploop("random", ctx.n(64, 800), case)

    if not ctx.only:
        for k in ("magnetic", "flagged", "per_sweep"):
            ctx.expect(ctx.counters.get(k, 0) > 0, "workload reaches: "+k)
