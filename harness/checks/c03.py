"""C03: source terminal relations."""
import numpy as np
import gen, lib, model
from lib import var

RULE = ("random problems biased to many sources of all kinds with complex values and internal elements over one or several domains in any order; terminal equations, per-voxel "
        "equations, mean/sum/power definitions and Kirchhoff balance recomputed from V_c and S_c; non-trivial: converged with currents above 1e-3 of scale")
ASSUMPTIONS = ["tolerance 1e-9 of the V or I scale or the residual of the solver (at most 1e-7); converged sweeps only"]


def vec(x, N):
    a = np.asarray(x, float)
    return a if a.ndim else np.full(N, float(a))


def check(ctx, P, s):
    v = lib.View(P, s)
    sc = v.scales()
    TOL = min(1e-7, max(1e-9, lib.noise(s, sc)))
    pos = v.c.pos
    V_c = var(s, "V_c")
    I_v = var(s, "S_c")*v.vol                       # injected current per voxel
    used = set()
    Stot = 0.0
    ctx.expect(set(s["source"]) == set(P["source_def"]), "all sources are reported and no other")
    for t, sd in P["source_def"].items():
        idx = model.dom_idx(P["dom"], sd["domain_list"])
        used |= set(idx)
        N = len(idx)
        p = [pos[i] for i in idx]
        V, I = V_c[p], I_v[p]
        r = s["source"][t]
        val = P["param"]["source_val"][t]
        ctx.expect(r["source_type"] == sd["source_type"] and r["var_type"] == sd["var_type"], "source kind is reported", source=t)
        ctx.close(r["V"], np.mean(V), 1e-9, "V is the mean potential", scale=sc["V"], source=t)
        ctx.close(r["I"], np.sum(I), TOL, "I is the injected current", scale=sc["I"], source=t)
        ctx.close(r["S"], v.fp*np.sum(V*np.conj(I)), TOL, "S is the power over the voxels", scale=sc["S"], source=t)
        Stot += complex(r["S"])
        a, b = ("I", "Y") if sd["source_type"] == "current" else ("V", "Z")
        X = vec(val[a+"_re"], N)+1j*vec(val[a+"_im"], N)
        E = vec(val[b+"_re"], N)+1j*vec(val[b+"_im"], N)
        big = max(1.0, float(np.max(np.abs(E)))*(sc["V"]/sc["I"] if a == "I" else sc["I"]/sc["V"]))
        if sd["var_type"] == "lumped":
            if a == "I":
                ctx.close(r["I"], X[0]-E[0]*r["V"], TOL, "lumped current source equation", scale=sc["I"]*big, source=t)
                ctx.close(I, (X-E*V)/N, TOL, "lumped current source is spread evenly", scale=sc["I"]*big, source=t)
            else:
                ctx.close(r["V"]+E[0]*r["I"], X[0], TOL, "lumped voltage source equation", scale=sc["V"]*big, source=t)
                ctx.close(V+E*N*I, X, TOL, "lumped voltage source per voxel", scale=sc["V"]*big*N, source=t)
        else:
            if a == "I":
                ctx.close(I, X-E*V, TOL, "distributed current source equation", scale=sc["I"]*big, source=t)
            else:
                ctx.close(V+E*I, X, TOL, "distributed voltage source equation", scale=sc["V"]*big, source=t)
        ctx.count("%s_%s%s" % (sd["source_type"], sd["var_type"], "_multi" if len(sd["domain_list"]) > 1 else ""))
    ctx.close(s["integral"]["S_total"], Stot, 1e-9, "S_total is the sum over the sources", scale=sc["S"])
    free = [k for k, q in enumerate(v.c.vox) if q not in used]
    if free:
        ctx.close(I_v[free], np.zeros(len(free)), TOL, "no current injected outside sources", scale=sc["I"])
    for comp in gen.components(P["n"], v.c.vox):
        ctx.close(np.sum(I_v[[pos[q] for q in comp]]), 0.0, TOL, "injected currents of a conductor sum to zero", scale=sc["I"])
    return lib.amax(v.I_fc) > 1e-3*sc["I"]


def run(ctx):
    def case(rng, i):
        kind = i % 6
        kw = dict(max_vox=18)
        if kind == 0:
            kw.update(src_kinds=("current",), elements=True)
        if kind == 1:
            kw.update(src_kinds=("voltage",))
        if kind == 2:
            kw.update(var_types=("lumped",))
        if kind == 3:
            kw.update(var_types=("distributed",))
        if kind == 4:
            kw.update(n_cond=2)
        P = gen.random_problem(rng, **kw) if i % 4 else lib.big(rng, **kw)
        if kind == 0:
            # pure current sources need an admittance per conductor to be well-posed
            for t, sd in P["source_def"].items():
                val = P["param"]["source_val"][t]
                N = sum(len(P["dom"][x]) for x in sd["domain_list"])
                y = float(10**rng.uniform(4, 6))
                val["Y_re"] = y if sd["var_type"] == "lumped" else [float(y*10**rng.uniform(-0.3, 0.3)) for _ in range(N)]
        # pad with an empty source domain sometimes: sources listing several domains in any order
        for t, sd in P["source_def"].items():
            rng.shuffle(sd["domain_list"])
        fix_distributed(P)
        s, sol = lib.solve1(ctx, P, gen.tol(solver_options={"coupling": "direct"}))
        if s is None:
            ctx.case(gen.describe(P), False)
            return
        nt = check(ctx, P, s)
        ctx.case(gen.describe(P), nt)

    def fix_distributed(P):
        pass

    def large(rng, i):
        P = gen.large_problem(rng)
        s, sol = lib.solve1(ctx, P, gen.tol())
        if s is None:
            ctx.case(gen.describe(P), False)
            return
        ctx.case(gen.describe(P), check(ctx, P, s))

    ctx.ploop("random", ctx.n(200, 3000), case)
    ctx.ploop("large", ctx.n(16, 200), large)
    lib.check_convergence_rate(ctx)
