"""C09: losses and energies are non-negative and add up over parts."""
import numpy as np
import gen, lib, model
from lib import var
from checks import c31

RULE = ("random small and larger problems (complex resistivities and susceptibilities, overlapping electromagnetic materials, several materials); loss densities are integrated over "
        "the voxels and per material, losses recomputed from the face flows rebuilt from the output densities; each problem is also solved at DC and at a vanishing frequency to compare "
        "the DC and AC factors; non-trivial: converged with losses above rounding")
ASSUMPTIONS = ["passive materials (positive real resistivity and susceptibility, non-negative magnetic loss term)"]
TOL = 1e-7


def account(ctx, P, s):
    v = lib.View(P, s)
    sc = v.scales()
    g = s["integral"]
    Pc, Pm = np.asarray(var(s, "P_c")), np.asarray(var(s, "P_m"))
    ctx.expect(not np.iscomplexobj(Pc) and not np.iscomplexobj(Pm), "loss densities are real")
    tot = sc["P_total"]
    ctx.close(np.sum(Pc)*v.vol, g["P_electric"], 1e-9, "electric loss density integrates to the total", scale=sc["P_electric"])
    ctx.close(np.sum(Pm)*v.vol, g["P_magnetic"], 1e-9, "magnetic loss density integrates to the total", scale=sc["P_magnetic"])
    ctx.close(g["P_electric"]+g["P_magnetic"], g["P_total"], 1e-12, "P_total is the sum of its parts", scale=abs(g["P_total"])+1e-300)
    ctx.close(g["W_electric"]+g["W_magnetic"], g["W_total"], 1e-12, "W_total is the sum of its parts", scale=abs(g["W_electric"])+abs(g["W_magnetic"])+1e-300)
    # materials
    ctx.expect(set(s["material"]) == set(P["material_def"]), "all the materials are reported and no other")
    se = sm = 0.0
    for t, md in P["material_def"].items():
        idx = model.dom_idx(P["dom"], md["domain_list"])
        r = s["material"][t]
        e = np.sum(Pc[[v.c.pos[i] for i in idx]])*v.vol if md["material_type"] != "magnetic" else 0.0
        m = np.sum(Pm[[v.m.pos[i] for i in idx]])*v.vol if md["material_type"] != "electric" else 0.0
        ctx.close(r["P_electric"], e, 1e-9, "material electric losses", scale=sc["P_electric"], material=t)
        ctx.close(r["P_magnetic"], m, 1e-9, "material magnetic losses", scale=sc["P_magnetic"], material=t)
        ctx.close(r["P_total"], r["P_electric"]+r["P_magnetic"], 1e-12, "material total losses", scale=abs(r["P_total"])+1e-300, material=t)
        se += r["P_electric"]; sm += r["P_magnetic"]
    ctx.close(se, g["P_electric"], 1e-9, "material electric losses sum to the total", scale=sc["P_electric"])
    ctx.close(sm, g["P_magnetic"], 1e-9, "material magnetic losses sum to the total", scale=sc["P_magnetic"])
    # passive: non-negative
    ctx.expect(np.all(Pc >= -1e-12*sc["P_c"]) and np.all(Pm >= -1e-12*sc["P_m"]), "loss densities are non-negative", low_c=np.min(Pc, initial=0), low_m=np.min(Pm, initial=0))
    for k in ("P_electric", "P_magnetic", "P_total"):
        ctx.expect(g[k] >= -1e-12*sc[k], k+" is non-negative", value=g[k])
    for k in ("W_electric", "W_magnetic", "W_total"):
        ctx.expect(g[k] >= -1e-9*sc[k], k+" is non-negative", value=g[k], scale=sc[k])
    # face flows: losses from R |I|^2 with the DC/AC factor; voxel share is half per face
    Pf = v.fp*np.real(v.c.R)*np.abs(v.I_fc)**2
    ctx.close(0.5*v.c.Aabs@Pf/v.vol, Pc, TOL, "electric loss density of the face currents", scale=sc["P_c"])
    if len(v.m.faces):
        Pf = v.fp*v.w*(-np.imag(v.m.R))*np.abs(v.I_fm)**2
        ctx.close(0.5*v.m.Aabs@np.abs(Pf)/v.vol, Pm, TOL, "magnetic loss density of the face fluxes", scale=sc["P_m"])
    # magnetic stored energy 1/4 (or 1/2) ... independent of the tensors only in simple cases, see C01/C02
    ctx.count("dc" if v.freq == 0 else "ac")
    return g["P_total"] > 1e-9*sc["P_total"], sc


def run(ctx):
    def case(rng, i):
        kw = dict(max_vox=16)
        if i % 3 == 0:
            kw["n_mag"] = 1
        P = lib.big(rng, **{**kw, "max_vox": 80}) if i % 4 == 0 else gen.random_problem(rng, **kw)
        if i % 2:
            # electric and magnetic materials sharing voxels instead of one electromagnetic material
            for t, md in list(P["material_def"].items()):
                if md["material_type"] == "electric" and rng.random() < 0.4:
                    md["material_type"] = "electromagnetic"
                    N = c31.nvox(P, md)
                    P["param"]["material_val"][t].update(gen.mat_param(rng, "magnetic", md["var_type"], md["orientation_type"], N, 0.5))
                    c31.split_em(P, t)
                    ctx.count("overlapping_materials")
        s, _ = lib.solve1(ctx, P)
        if s is None:
            ctx.case(gen.describe(P), False)
            return
        nt, sc = account(ctx, P, s)
        ctx.case(gen.describe(P), nt)

    def factors(rng, i):
        # same excitation at DC and at a vanishing frequency: power factor 2, energy factor 2
        P = gen.random_problem(rng, complex_rho=0.0, freq=0.0, n_mag=int(i % 2))
        for v in P["param"]["source_val"].values():
            for k in v:
                if k.endswith("_im"):
                    v[k] = 0.0 if np.ndim(v[k]) == 0 else [0.0]*len(v[k])
        for v in P["param"]["material_val"].values():
            if "chi_im" in v:
                v["chi_im"] = np.zeros_like(np.asarray(v["chi_im"], float)).tolist()
        L0 = model.MU0*max(P["d"])
        R0 = 1e-8/max(P["d"])
        f = 1e-8*R0/L0
        q = gen.merge(P, {"param": {"freq": f}})
        # a resistance of the order of the material range keeps omega L / R below 1e-6
        a, _ = lib.solve1(ctx, P)
        b, _ = lib.solve1(ctx, q)
        if a is None or b is None:
            ctx.case(gen.describe(P), False)
            return
        account(ctx, P, a)
        account(ctx, q, b)
        sc = lib.View(P, a).scales(lib.View(q, b))
        tol = 1e-4
        for k in ("P_electric", "W_electric", "W_magnetic", "W_total"):
            ctx.close(b["integral"][k], 0.5*a["integral"][k], tol, "AC value is half of the DC value: "+k, scale=sc[k])
        ctx.close(np.real(b["integral"]["S_total"]), 0.5*np.real(a["integral"]["S_total"]), tol, "AC source power is half of the DC value", scale=sc["S"])
        ctx.close(a["integral"]["P_magnetic"], 0.0, 0, "no magnetic losses at DC", scale=1.0)
        ctx.close(var(b, "P_c"), 0.5*var(a, "P_c"), tol, "AC loss density is half of the DC value", scale=sc["P_c"])
        ctx.close(var(b, "J_c"), var(a, "J_c"), tol, "peak currents are the DC currents", scale=sc["J_c"])
        ctx.case(gen.describe(P), a["integral"]["P_electric"] > 1e-9*sc["P_electric"])

    def energy(rng, i):
        # one-dimensional bar: energy from the quadrature of the Green integrals
        n = int(rng.integers(2, 7))
        d = gen.rand_size(rng)
        ax = int(rng.integers(3))
        shape = [1, 1, 1]; shape[ax] = n
        f = 0.0 if i % 2 == 0 else float(10**rng.uniform(1, 5))
        dom = {"a": [0], "b": list(range(1, n-1)), "c": [n-1]}
        rho, cur = float(10**rng.uniform(-8, -7)), float(rng.normal())
        P = {"n": shape, "d": d, "c": [0, 0, 0], "dom": {k: v for k, v in dom.items() if v},
             "material_def": {"e": {"domain_list": [k for k, v in dom.items() if v], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}},
             "source_def": {"s": {"domain_list": ["a"], "source_type": "current", "var_type": "lumped"}, "r": {"domain_list": ["c"], "source_type": "voltage", "var_type": "lumped"}},
             "param": {"freq": f, "material_val": {"e": {"rho_re": rho, "rho_im": 0.0}},
                       "source_val": {"s": {"I_re": cur, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}, "r": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
        s, _ = lib.solve1(ctx, P)
        if s is None:
            return
        ctx.case(gen.describe(P))
        A = np.prod(d)/d[ax]
        R = rho*(n-1)*d[ax]/A
        K = model.kernel(d)
        e = np.zeros(3, int); L = 0.0
        for p in range(n-1):
            for q in range(n-1):
                e[:] = 0; e[ax] = p-q
                L += model.MU0*K.get(tuple(e))[0]/A**2
        fp, fw = (1.0, 0.5) if f == 0 else (0.5, 0.25)
        ctx.close(s["integral"]["P_total"], fp*R*cur**2, 1e-7, "losses of a bar")
        ctx.close(s["integral"]["W_total"], fw*L*cur**2, 1e-7, "energy of a bar")
        ctx.close(s["source"]["s"]["V"], (R+2j*np.pi*f*L)*cur, 1e-7, "impedance of a bar")

    ctx.ploop("random", ctx.n(160, 3000), case)
    ctx.ploop("factors", ctx.n(60, 800), factors)
    ctx.ploop("bar", ctx.n(40, 400), energy)
    lib.check_convergence_rate(ctx)
