"""C02: complex power balance."""
import numpy as np
import gen, lib, model
from lib import var

RULE = ("random problems (up to some hundred voxels, FFT and direct operators, all source kinds, magnetic/electromagnetic materials, complex resistivities) solved "
        "with tight tolerances; balance of S_total, P_total, W_total and the imaginary resistivity term computed from face currents reconstructed from the output; "
        "non-trivial: converged and |S_total| above rounding")
ASSUMPTIONS = ["balance tolerance 1e-9 of the |V||I| scale or the residual of the solver (at most 1e-6); converged sweeps only (GMRES 1e-11)"]
TOL = 1e-6


def balance(ctx, P, s):
    v = lib.View(P, s)
    sc = v.scales()
    # rounding and the residual left by the iterative solver bound the error of the balance
    tol = min(TOL, max(1e-9, lib.noise(s, sc)))
    S = complex(s["integral"]["S_total"])
    Pt, Wt = s["integral"]["P_total"], s["integral"]["W_total"]
    ctx.close(S.real, Pt, tol, "active power equals losses", scale=sc["S"])
    react = v.fp*float(np.sum(np.imag(v.c.R)*np.abs(v.I_fc)**2))
    ctx.close(S.imag, (2*v.w*Wt if v.w else 0.0)+react, tol, "reactive power equals stored energy", scale=sc["S"])
    # sharper: relative to the power itself when it is well above rounding
    if abs(S) > 1e-3*sc["S"]:
        ctx.count("sharp")
        ctx.close(S.real, Pt, 1e-5, "active power (relative)", scale=abs(S))
        ctx.close(S.imag, 2*v.w*Wt+react, 1e-5, "reactive power (relative)", scale=abs(S))
    ctx.close(sum(complex(x["S"]) for x in s["source"].values()), S, 1e-9, "S_total is the sum over sources", scale=sc["S"])
    ctx.close(s["integral"]["P_electric"]+s["integral"]["P_magnetic"], Pt, 1e-12, "P_total is the sum")
    ctx.close(s["integral"]["W_electric"]+s["integral"]["W_magnetic"], Wt, 1e-12, "W_total is the sum", scale=max(abs(s["integral"]["W_electric"]), 1e-300))
    # electric losses from the reconstructed currents, including the half factor
    ctx.close(v.fp*float(np.sum(np.real(v.c.R)*np.abs(v.I_fc)**2)), s["integral"]["P_electric"], TOL, "Joule losses of the face currents", scale=sc["P_electric"])
    pm = v.fp*float(np.sum(np.real(np.conj(1j*v.w*v.I_fm)*v.m.R*v.I_fm)))
    ctx.close(pm, s["integral"]["P_magnetic"], TOL, "magnetic losses of the face fluxes", scale=sc["P_magnetic"])
    if v.w == 0:
        ctx.close(s["integral"]["P_magnetic"], 0.0, 1e-12, "no magnetic losses in DC", scale=sc["S"])
        if np.all(np.imag(v.c.R) == 0):
            ctx.close(S.imag, 0.0, TOL, "no reactive power in DC", scale=sc["S"])
    return abs(S) > 1e-6*sc["S"]


def run(ctx):
    def case(rng, i):
        kw = {}
        kind = i % 5
        if kind == 0:
            kw = dict(freq=0.0)
        if kind == 1:
            kw = dict(complex_rho=0.0)
        if kind == 2:
            kw = dict(complex_rho=1.0, n_mag=1)
        if kind == 3:
            kw = dict(n_mag=2)
        P = lib.big(rng, **kw) if i % 3 == 0 else gen.random_problem(rng, **kw)
        if i % 7 == 0 and P["param"]["freq"]:
            P["param"]["freq"] *= 10**rng.uniform(-3, 2)
        opt = gen.tol(mult_type="direct" if (i % 4 == 0 and i % 3) else "fft", fft_options={"matrix_split": bool(rng.integers(2))},
                      integral_simplify=float(rng.choice([1000.0, 20.0, 4.0])))
        s, sol = lib.solve1(ctx, P, opt)
        if s is None:
            ctx.case(gen.describe(P), False)
            return
        nt = balance(ctx, P, s)
        ctx.case(gen.describe(P), nt)
        ctx.count("dc" if P["param"]["freq"] == 0 else "ac")
        if sol["data_init"]["idx_fm"] is not None and len(sol["data_init"]["idx_fm"]):
            ctx.count("magnetic")

    def large(rng, i):
        P = gen.large_problem(rng)
        s, sol = lib.solve1(ctx, P, gen.tol(fft_options={"matrix_split": bool(i % 2), "library": ["SciPy", "NumPy"][i//2 % 2]}, integral_simplify=float(rng.choice([1000.0, 20.0, 4.0]))))
        if s is None:
            ctx.case(gen.describe(P), False)
            return
        ctx.case(gen.describe(P), balance(ctx, P, s))
        ctx.count("large_voxels", len(sol["data_init"]["idx_vc"])+len(sol["data_init"]["idx_vm"]))

    ctx.ploop("random", ctx.n(200, 3000), case)
    ctx.ploop("large", ctx.n(24, 300), large)
    lib.check_convergence_rate(ctx)
