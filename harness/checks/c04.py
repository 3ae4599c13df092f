"""C04: numerical options do not change the converged solution."""
import numpy as np
import pypeec
import gen, lib, model, standin
from lib import var

RULE = ("each random problem is solved with a base option set and with several variants (direct/fft operator, split, FFT library/workers, gmres/gcrot, segregated coupling with "
        "relaxation, restart sizes, power stop, initial-guess chains, serial/parallel sweeps, integral thresholds above the structure size) and all outputs are compared; "
        "non-trivial: base and at least 3 variants converged")
ASSUMPTIONS = ["solver tolerances 1e-11 (segregated 1e-10); agreement required to 1e-6 of the physical scale (5e-4 for segregated coupling: the charge error of a fixed point stopped at 1e-10 was seen to reach 6e-5)",
               "FFTW, MKL, CuPy, PARDISO and PyAMG are not installed: stand-ins with their documented interfaces are used (stage libraries)"]
TOL = 1e-6


def variants(rng, has_mag):
    it2 = {"solver": "gcrot", "rel_tol": 1e-11, "abs_tol": 1e-30, "n_inner": 40, "n_outer": 60}
    it3 = {"solver": "gmres", "rel_tol": 1e-11, "abs_tol": 1e-30, "n_inner": 15, "n_outer": 400}
    V = [
        ("direct operator", 1e-6, dict(mult_type="direct")),
        ("split tensors", 1e-6, dict(fft_options={"matrix_split": True})),
        ("NumPy FFT", 1e-6, dict(fft_options={"library": "NumPy", "matrix_split": bool(rng.integers(2))})),
        ("SciPy workers", 1e-6, dict(fft_options={"library": "SciPy", "scipy_worker": int(rng.choice([-1, 2, 3])), "matrix_split": bool(rng.integers(2))})),
        ("gcrot", TOL, dict(solver_options={"direct_options": it2})),
        ("small restart", TOL, dict(solver_options={"direct_options": it3})),
        ("no condition check", 1e-9, dict(condition_options={"check": False})),
        ("threshold", 1e-9, dict(integral_simplify=500.0)),
        ("segregated", 5e-4, dict(solver_options={"coupling": "segregated"})),
        ("segregated relaxed", 5e-4, dict(solver_options={"coupling": "segregated", "segregated_options": {"relax_electric": float(rng.uniform(0.6, 1.0)), "relax_magnetic": float(rng.uniform(0.6, 1.0)), "n_max": 200}})),
        ("segregated gcrot direct operator", 5e-4, dict(mult_type="direct", solver_options={"coupling": "segregated", "segregated_options": {"iter_electric_options": it2, "iter_magnetic_options": it2}})),
    ]
    return V


def run(ctx):
    def case(rng, i):
        bigc = i % 4 == 0
        kw = {}
        if i % 3 == 1:
            kw = dict(n_mag=int(rng.integers(1, 3)))
        if i % 8 == 5:
            kw["freq"] = 0.0
        P = lib.big(rng, max_vox=50, **kw) if bigc else gen.random_problem(rng, **kw)
        pts = lib.outside_points(rng, P, 2)
        voxel = lib.mesh(ctx, P, pts)
        opt = lib.cap(P, gen.tol())

        def solve(o, sweeps=None):
            return ctx.call(pypeec.run_solver_data, voxel, gen.data_problem(P, sweeps), o)
        base = solve(opt)["data_sweep"]["sim"]
        ctx.count("solves")
        if not base["has_converged"]:
            ctx.count("not_converged")
            ctx.case(gen.describe(P), False)
            return
        sc = lib.View(P, base).scales()
        has_mag = len(var(base, "B_m")) > 0
        V = variants(rng, has_mag)
        sel = rng.permutation(len(V))[:ctx.n(5, 11)]
        ok = 0
        for k in sorted(sel):
            (name, tol, o) = V[k]
            try:
                s = pypeec.run_solver_data(voxel, gen.data_problem(P), gen.merge(opt, o))["data_sweep"]["sim"]
            except Exception as ex:
                # a diverging fixed-point iteration may overflow and be refused
                if not ("segregated" in name and lib.overflow(ex)):
                    ctx.fail("%s: exception on valid input: %s: %s" % (name, type(ex).__name__, ex))
                    continue
                s = {"has_converged": False}
            if not s["has_converged"]:
                ctx.count("variant_not_converged:"+name)
                ctx.count("seg_nc" if "segregated" in name else "var_nc")
                continue
            ctx.count("variant:"+name)
            ctx.count("var_ok")
            ok += 1
            lib.compare_outputs(ctx, base, s, sc, tol, name)
        # initial guess chains: the converged result is that of the isolated sweep
        param = P["param"]
        p2 = gen.merge(param, {"freq": param["freq"]*3.0 if param["freq"] else 1e3})
        sw = {"b": {"init": "a", "param": param}, "a": {"init": None, "param": p2}, "c": {"init": "b", "param": param}, "sim": {"init": "c", "param": param}}
        chain = solve(opt, sw)["data_sweep"]
        for t in ("b", "c", "sim"):
            if chain[t]["has_converged"]:
                ctx.count("variant:init chain")
                ok += 1
                lib.compare_outputs(ctx, base, chain[t], sc, TOL, "initial guess")
        # early power stop with a tight power tolerance: same terminal power
        o = gen.merge(opt, {"solver_options": {"power_options": {"stop": True, "n_min": 3, "n_cmp": 3, "rel_tol": 1e-10, "abs_tol": 1e-30},
                                               "direct_options": {"n_inner": 4, "n_outer": 3000}}})
        s = solve(o)["data_sweep"]["sim"]
        if s["has_converged"]:
            ctx.count("variant:power stop")
            lib_power(ctx, base, s, sc)
        ctx.case(gen.describe(P), ok >= 3)

    def lib_power(ctx, base, s, sc):
        ctx.close(s["integral"]["S_total"], base["integral"]["S_total"], 1e-3, "power stop: S_total", scale=max(abs(base["integral"]["S_total"]), 1e-3*sc["S"]))

    ctx.ploop("options", ctx.n(56, 600), case)

    # the FFT operator on elongated and flat grids with several components, against the explicit operator
    def shape_case(rng, i):
        shapes = [(40, 1, 2), (1, 9, 7), (2, 3, 17), (7, 1, 1), (13, 5, 1), (6, 5, 4), (3, 11, 2), (1, 1, 12)]
        nm = shapes[i % len(shapes)]
        P = None
        for _ in range(200):
            n = list(nm)
            free = range(int(np.prod(n)))
            b = gen.blob(rng, n, int(min(45, np.prod(n)*0.7)), free, 0.8)
            if len(b) < 4:
                continue
            rest = sorted(set(free)-set(b))
            dom = {"src": [b[0]], "sink": [b[-1]], "cond": b[1:-1]}
            P = {"n": n, "d": gen.rand_size(rng), "c": [0.0, 0.0, 0.0], "dom": dom,
                 "material_def": {"e": {"domain_list": ["src", "cond", "sink"], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}},
                 "source_def": {"a": {"domain_list": ["src"], "source_type": "current", "var_type": "lumped"}, "b": {"domain_list": ["sink"], "source_type": "voltage", "var_type": "lumped"}},
                 "param": {"freq": float(10**rng.uniform(2, 6)), "material_val": {"e": {"rho_re": 2e-8, "rho_im": 0.0}},
                           "source_val": {"a": {"I_re": 1.0, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}, "b": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
            if len(rest) >= 3 and rng.random() < 0.8:
                dom["mag"] = [int(x) for x in rng.permutation(rest)[:30]]
                P["material_def"]["m"] = {"domain_list": ["mag"], "material_type": "magnetic", "orientation_type": "isotropic", "var_type": "lumped"}
                P["param"]["material_val"]["m"] = {"chi_re": 30.0, "chi_im": 1.0}
            break
        thr = float(rng.choice([1000.0, 5.0]))
        opt = gen.tol(integral_simplify=thr)
        vx = lib.mesh(ctx, P)
        out = []
        for o in (dict(mult_type="direct"), dict(mult_type="fft", fft_options={"matrix_split": False}), dict(mult_type="fft", fft_options={"matrix_split": True, "library": "NumPy"})):
            s = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P), gen.merge(opt, o))["data_sweep"]["sim"]
            out.append(s)
        ctx.count("solves")
        if not all(s["has_converged"] for s in out):
            ctx.count("not_converged")
            ctx.count("shape_nc_mixed", len({s["has_converged"] for s in out})-1)
            return
        sc = lib.View(P, out[0]).scales()
        ctx.case(gen.describe(P))
        for s in out[1:]:
            lib.compare_outputs(ctx, out[0], s, sc, 1e-6, "fft versus direct operator")
        ctx.count("operator_pairs", 2)

    ctx.ploop("shapes", ctx.n(48, 400), shape_case)

    # optional libraries through stand-ins with the documented interfaces
    def library_case(rng, i):
        P = gen.random_problem(rng, n_mag=i % 2, max_vox=10)
        vx = lib.mesh(ctx, P)
        opt = gen.tol()
        base = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P), opt)["data_sweep"]["sim"]
        ctx.case(gen.describe(P))
        if not base["has_converged"]:
            ctx.count("not_converged")
            return
        sc = lib.View(P, base).scales()
        sp = bool(rng.integers(2))
        th = [int(x) for x in rng.choice([-1, 0, 1, 2], 3)]
        to = [None, 5.0][int(rng.integers(2))]
        V = [("MKL", "mkl_fft", {"fft_options": {"library": "MKL", "matrix_split": sp}}),
             ("FFTW", "pyfftw.interfaces.numpy_fft", {"fft_options": {"library": "FFTW", "matrix_split": sp, "fftw_thread": th[0], "fftw_timeout": to}}),
             ("CuPy", "cupy", {"fft_options": {"library": "CuPy", "matrix_split": sp}}),
             ("PARDISO", "pydiso", {"factorization_options": {"library": "PARDISO", "pardiso_options": {"thread_pardiso": th[1], "thread_mkl": th[2]}}}),
             ("PyAMG root", "pyamg root", {"factorization_options": {"library": "PyAMG", "pyamg_options": {"solver": "root"}}}),
             ("PyAMG adapt", "pyamg adapt", {"factorization_options": {"library": "PyAMG", "pyamg_options": {"solver": "adapt", "krylov": "gmres"}}})]
        for (name, log, o) in V:
            with standin.installed() as events:
                s = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P), gen.merge(opt, o))["data_sweep"]["sim"]
                ctx.expect(log in events, "the configured library is used", library=name)
            if not s["has_converged"]:
                # ill-conditioned systems stagnate near the limit, whatever the library
                ctx.count("lib_nc:"+name)
                continue
            lib.compare_outputs(ctx, base, s, sc, TOL, "library "+name)
            ctx.count("library:"+name)

    ctx.ploop("libraries", ctx.n(16, 160), library_case)
    if not ctx.only:
        for name in ("MKL", "FFTW", "CuPy", "PARDISO", "PyAMG root", "PyAMG adapt"):
            bad, ok = ctx.counters.get("lib_nc:"+name, 0), ctx.counters.get("library:"+name, 0)
            ctx.expect(bad <= 0.35*(bad+ok)+1, "solutions converge with the library: %d of %d did not" % (bad, bad+ok), library=name)

    # serial and parallel execution of the sweeps
    def parallel_case(rng, i):
        P = gen.random_problem(rng, n_mag=1)
        vx = lib.mesh(ctx, P)
        f = P["param"]["freq"] or 1e4
        sw = {}
        for k in range(4):
            sw["s%d" % k] = {"init": None if k < 2 else "s%d" % (k-2), "param": gen.merge(P["param"], {"freq": f*(k+1)})}
        so = {"direct_options": {"rel_tol": 1e-9}}
        a = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(solver_options=so))
        b = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol(solver_options=so, parallel_sweep={"n_jobs": 2, "n_threads": 1}, fft_options={"library": str(rng.choice(["NumPy", "SciPy"])), "matrix_split": bool(rng.integers(2))}))
        ctx.case(gen.describe(P))
        ctx.expect(set(a["data_sweep"]) == set(b["data_sweep"]) == set(sw), "all sweeps are returned")
        for t in sw:
            sa, sb = a["data_sweep"][t], b["data_sweep"][t]
            if not (sa["has_converged"] and sb["has_converged"]):
                ctx.count("parallel_not_converged")
            else:
                Pt = dict(P); Pt["param"] = sw[t]["param"]
                lib.compare_outputs(ctx, sa, sb, lib.View(Pt, sa).scales(), 1e-6, "serial versus parallel")
                ctx.count("parallel_compared")

    ctx.loop("parallel", ctx.n(3, 12), parallel_case)
    lib.check_convergence_rate(ctx)
    if not ctx.only:
        bad, ok = ctx.counters.get("var_nc", 0), ctx.counters.get("var_ok", 0)
        ctx.expect(bad <= 0.25*(bad+ok), "variants converge: %d of %d did not" % (bad, bad+ok))
        ctx.expect(ctx.counters.get("parallel_compared", 0) > 0, "parallel sweeps converge")
        ctx.expect(sum(v for k, v in ctx.counters.items() if k.startswith("variant:segregated")) > 0, "segregated variants converge")
