"""C01: solver outputs against an independent dense PEEC solution."""
import numpy as np
import pypeec
import gen, model, oracle

RULE = ("random voxel structures (1-2 conductors, 0-2 magnetic blobs, electromagnetic voxels), random materials/sources/frequency, solved by "
        "run_mesher_data+run_solver_data with tight tolerances and compared field by field with a dense solve of independently assembled equations "
        "(quadrature kernels); non-trivial: converged with currents above 1e-3 of their scale")
ASSUMPTIONS = ["tolerance 1e-7 of the physical scale of each quantity", "integral_simplify large enough that no far-field approximation is used",
               "CPython/NumPy/SciPy and the FFT/LU/GMRES libraries are trusted"]
TOL = 1e-7


def solve_case(ctx, P, options=None, sweeps=None, geo=None):
    vox = ctx.call(pypeec.run_mesher_data, geo or gen.geometry(P["n"], P["d"], P["c"], P["dom"]))
    return ctx.call(pypeec.run_solver_data, vox, gen.data_problem(P, sweeps), options or gen.tol())


def run(ctx):
    def random_case(rng, i):
        kind = i % 6
        kw = {}
        if kind == 1:
            kw = dict(n_mag=0, nmax=(6, 4, 3))
        if kind == 2:
            kw = dict(n_mag=2, n_cond=1)
        if kind == 3:
            kw = dict(n_cond=2, nmax=(4, 5, 4))
        if kind == 4:
            kw = dict(nmax=(2, 3, 6), max_vox=20)
        if kind == 5:
            kw = dict(n_mag=1, freq=0.0)
        P = gen.random_problem(rng, **kw)
        X = model.solve(P)
        nt = oracle.nontrivial(P, X)
        ctx.case(gen.describe(P), nt)
        opt = gen.tol(mult_type=str(rng.choice(["fft", "fft", "direct"])),
                      fft_options={"matrix_split": bool(rng.integers(2)), "library": str(rng.choice(["SciPy", "NumPy"]))})
        sol = solve_case(ctx, P, opt)
        s = sol["data_sweep"]["sim"]
        if not s["has_converged"]:
            ctx.count("not_converged")
            return
        ctx.count("compared_dc" if P["param"]["freq"] == 0 else "compared_ac")
        if len(X["S"]["m"].faces):
            ctx.count("compared_magnetic")
        ctx.expect(s["freq"] == P["param"]["freq"], "frequency is returned")
        ctx.expect(list(sol["data_init"]["idx_vc"]) == X["S"]["c"].vox, "electric voxel order")
        ctx.expect(list(sol["data_init"]["idx_vm"]) == X["S"]["m"].vox, "magnetic voxel order")
        oracle.compare(ctx, P, s, X, TOL)

    ctx.ploop("random", ctx.n(240, 3000), random_case)

    # dense box: all voxels filled, every kind of face and boundary present
    def box_case(rng, i):
        n = [int(x) for x in rng.integers(1, 5, 3)]
        while np.prod(n) < 2 or np.prod(n) > 36:
            n = [int(x) for x in rng.integers(1, 5, 3)]
        N = int(np.prod(n))
        perm = rng.permutation(N)
        mixed = rng.random() < 0.5 and N >= 6
        cut = N//2 if mixed else N
        # conductor: lower half in one direction so that it stays connected
        ax = int(rng.integers(3))
        if mixed and n[ax] >= 2:
            h = n[ax]//2
            cond = [v for v in range(N) if model.unlin(n, v)[ax] < h]
            mag = [v for v in range(N) if model.unlin(n, v)[ax] >= h]
        else:
            cond, mag = list(range(N)), []
        if len(cond) < 2:
            cond, mag = list(range(N)), []
        rng.shuffle(cond); rng.shuffle(mag)
        dom = {"src": cond[:1], "sink": cond[1:2]}
        if cond[2:]:
            dom["cond"] = cond[2:]
        if mag:
            dom["mag"] = mag
        P = {"n": n, "d": gen.rand_size(rng), "c": [0.0, 0.0, 0.0], "dom": {k: [int(x) for x in v] for k, v in dom.items()},
             "material_def": {"e": {"domain_list": [k for k in ("cond", "src", "sink") if k in dom], "material_type": "electric", "orientation_type": "anisotropic", "var_type": "lumped"}},
             "source_def": {"a": {"domain_list": ["src"], "source_type": "current", "var_type": "lumped"}, "b": {"domain_list": ["sink"], "source_type": "voltage", "var_type": "lumped"}},
             "param": {"freq": float(10**rng.uniform(1, 6)) if rng.random() < 0.8 else 0.0,
                       "material_val": {"e": {"rho_re": [float(x) for x in 10**rng.uniform(-8, -7, 3)], "rho_im": [0.0, 0.0, 0.0]}},
                       "source_val": {"a": {"I_re": 1.0, "I_im": 0.5, "Y_re": 0.0, "Y_im": 0.0}, "b": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
        if mag:
            P["material_def"]["m"] = {"domain_list": ["mag"], "material_type": "magnetic", "orientation_type": "isotropic", "var_type": "lumped"}
            P["param"]["material_val"]["m"] = {"chi_re": float(10**rng.uniform(0, 2)), "chi_im": float(rng.uniform(0, 3))}
        X = model.solve(P)
        ctx.case(gen.describe(P), oracle.nontrivial(P, X))
        sol = solve_case(ctx, P)
        s = sol["data_sweep"]["sim"]
        if not s["has_converged"]:
            ctx.count("not_converged")
            return
        ctx.count("compared_box")
        oracle.compare(ctx, P, s, X, TOL)

    ctx.ploop("box", ctx.n(60, 600), box_case)

    # isolated voxels: conductors and magnetic parts without any face, alone or beside an ordinary structure
    def isolated_case(rng, i):
        if i % 4 == 0:
            P = {"n": [1, 1, 1], "d": gen.rand_size(rng), "c": [0.0, 0.0, 0.0], "dom": {}, "material_def": {}, "source_def": {},
                 "param": {"freq": 0.0 if rng.random() < 0.3 else float(10**rng.uniform(1, 6)), "material_val": {}, "source_val": {}}}
            n0 = [0, 1, 1]
        else:
            P = gen.random_problem(rng, n_mag=int(rng.integers(0, 2)), max_vox=8)
            n0 = P["n"]
        # add layers behind the structure along a random axis and place single voxels with gaps
        ax = 0 if i % 4 == 0 else int(rng.integers(3))
        k = int(rng.integers(1, 4))
        n1 = list(n0)
        n1[ax] = n0[ax]+2*k
        kinds = [str(x) for x in rng.choice(["electric", "electric", "electromagnetic", "magnetic"], k)]
        if i % 4 == 0:
            kinds[0] = str(rng.choice(["electric", "electromagnetic"]))
        P["dom"] = {t: [int(model.lin(n1, model.unlin(n0, v))) for v in d] for t, d in P["dom"].items()}
        P["n"] = n1
        for j, kind in enumerate(kinds):
            p = [int(rng.integers(m)) for m in n1]
            p[ax] = n0[ax]+2*j+1
            t = "iso%d" % j
            P["dom"][t] = [int(model.lin(n1, p))]
            P["material_def"][t] = {"domain_list": [t], "material_type": kind, "orientation_type": "isotropic", "var_type": "lumped"}
            P["param"]["material_val"][t] = gen.mat_param(rng, kind, "lumped", "isotropic", 1, 0.5)
            if kind != "magnetic":
                typ, vt = str(rng.choice(["voltage", "current"])), str(rng.choice(["lumped", "distributed"]))
                P["source_def"][t] = {"domain_list": [t], "source_type": typ, "var_type": vt}
                a, b = ("I", "Y") if typ == "current" else ("V", "Z")
                val = {a+"_re": rng.normal(), a+"_im": rng.normal(), b+"_re": rng.uniform(0.1, 2.0), b+"_im": rng.normal()}
                P["param"]["source_val"][t] = {q: (float(x) if vt == "lumped" else [float(x)]) for q, x in val.items()}
        X = model.solve(P)
        sol = solve_case(ctx, P, gen.tol(mult_type=str(rng.choice(["fft", "direct"]))))
        s = sol["data_sweep"]["sim"]
        ctx.case(gen.describe(P))
        if not s["has_converged"]:
            ctx.count("not_converged")
            return
        ctx.count("compared_isolated")
        oracle.compare(ctx, P, s, X, TOL)

    ctx.ploop("isolated", ctx.n(60, 600), isolated_case)
    tot = sum(ctx.stage_counts.get(k, 0) for k in ("random", "box", "isolated"))
    if not ctx.only:
        ctx.expect(ctx.counters.get("not_converged", 0) <= 0.15*tot, "well-posed problems converge: %d of %d did not" % (ctx.counters.get("not_converged", 0), tot))
