"""C10: cloud field from the solved currents and charges."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("random problems with random cloud points outside the voxels (near and far, DC/AC, face and voxel mode): the field is recomputed from the returned densities (face currents rebuilt "
        "from J_c) and magnetic charges; point reorder/subset/empty/duplicate; voxel and face modes compared far away; a high-resistance probe ring relates the field to the "
        "induced current; non-trivial: field above rounding")
ASSUMPTIONS = ["points at least one voxel away from active voxel centres (the field of point-like sources is singular at the centres)"]
TOL = 1e-7


def biot(pts, src, mom):
    H = np.zeros((len(pts), 3), complex)
    mag = np.zeros(len(pts))
    for k, p in enumerate(pts):
        r = p-src
        h = np.cross(mom, r)/(4*np.pi*np.linalg.norm(r, axis=1)[:, None]**3)
        H[k] = h.sum(axis=0)
        mag[k] = np.abs(h).sum()
    return H, mag


def charge(pts, src, q):
    H = np.zeros((len(pts), 3), complex)
    mag = np.zeros(len(pts))
    for k, p in enumerate(pts):
        r = p-src
        h = q[:, None]*r/(4*np.pi*model.MU0*np.linalg.norm(r, axis=1)[:, None]**3)
        H[k] = h.sum(axis=0)
        mag[k] = np.abs(h).sum()
    return H, mag


def expected(P, s, pts, mode):
    v = lib.View(P, s)
    cen = lambda net: np.array([model.centre(P["n"], P["d"], P["c"], q) for q in net.vox]).reshape(-1, 3)
    pc, pm = cen(v.c), cen(v.m)
    d = np.array(P["d"])
    if mode == "voxel":
        src, mom = pc, var(s, "J_c")*v.vol
    else:
        src = np.array([0.5*(pc[lo]+pc[up]) for (ax, lo, up) in v.c.faces]).reshape(-1, 3)
        mom = np.zeros((len(v.c.faces), 3), complex)
        for k, (ax, lo, up) in enumerate(v.c.faces):
            mom[k, ax] = d[ax]*v.I_fc[k]
    He, me = biot(pts, src, mom)
    # bound charge is minus the flux divergence
    Hm, mm = charge(pts, pm, -var(s, "Q_m")*v.vol)
    return He, Hm, me+mm


def run(ctx):
    def case(rng, i):
        kw = {}
        if i % 2:
            kw["n_mag"] = int(rng.integers(1, 3))
        P = lib.big(rng, max_vox=60, **kw) if i % 5 == 0 else gen.random_problem(rng, **kw)
        k = int(rng.integers(1, 6))
        if i % 9 == 4:
            k = int(10**rng.uniform(1.3, 3))
        pts = lib.outside_points(rng, P, k)
        if i % 4 == 0:
            far = np.array(P["c"])+rng.normal(size=(2, 3))*30*np.array(P["n"])*np.array(P["d"])
            pts = np.concatenate([pts, far])
        out = {}
        for mode in ("face", "voxel"):
            s, sol = lib.solve1(ctx, P, gen.tol(biot_savart=mode), pts)
            if s is None:
                ctx.case(gen.describe(P), False)
                return
            He, Hm, mag = expected(P, s, pts, mode)
            H = var(s, "H_p")
            out[mode] = H
            ctx.expect(H.shape == (len(pts), 3), "one field vector per cloud point")
            ctx.close(np.asarray(sol["data_init"]["pts_cloud"]), pts, 1e-14, "the points are returned with the solution")
            for q in range(len(pts)):
                ctx.close(H[q], He[q]+Hm[q], TOL, "field at a point", scale=max(mag[q], 1e-300), mode=mode)
            ctx.count("points_"+mode, len(pts))
            if lib.amax(Hm) > 1e-3*lib.amax(He):
                ctx.count("magnetic_part_visible")
        ctx.case({**gen.describe(P), "pts": pts}, lib.amax(He) > 1e-9*np.max(mag))
        # order, subset, duplicates, no point
        sel = rng.integers(0, len(pts), int(rng.integers(1, 5)))
        s2, _ = lib.solve1(ctx, P, gen.tol(biot_savart="face"), pts[sel])
        if s2 is not None:
            ctx.close(var(s2, "H_p"), out["face"][sel], 1e-9, "field of a subset of the points in another order", scale=max(lib.amax(out["face"]), np.max(mag)))
        s3, _ = lib.solve1(ctx, P, gen.tol(biot_savart=str(rng.choice(["face", "voxel"]))), [])
        if s3 is not None:
            ctx.expect(np.shape(var(s3, "H_p")) == (0, 3), "no field without points", shape=np.shape(var(s3, "H_p")))
            ctx.close(var(s3, "J_c"), var(s, "J_c"), 1e-9, "the points do not influence the solution", scale=lib.View(P, s).scales()["J_c"])

    def far_case(rng, i):
        # a closed loop seen from far away: both modes agree with the loop dipole
        n = [4, 4, 1]
        perm = rng.permutation(3)
        P = gen.random_problem(rng, n_mag=int(i % 2))
        c, ext = np.array(P["c"]), np.array(P["n"])*np.array(P["d"])
        pts = c+np.array([[3, 5, 4], [-6, 2, 3], [1, -8, 2.0]])*np.linalg.norm(ext)*20
        r = {}
        for mode in ("face", "voxel"):
            s, _ = lib.solve1(ctx, P, gen.tol(biot_savart=mode), pts)
            if s is None:
                return
            r[mode] = var(s, "H_p")
            He, Hm, mag = expected(P, s, pts, mode)
        ctx.case({**gen.describe(P), "far": True})
        ctx.close(r["face"], r["voxel"], 0.02, "face and voxel modes agree far away", scale=np.max(mag))

    def probe(rng, i):
        # ring of eight resistive voxels measuring the flux: I_ring * R = -j omega mu0 * flux
        g = 13
        ax = int(rng.integers(3))
        e1, e2 = [(1, 2), (2, 0), (0, 1)][ax]
        n = [5, 5, 5]; n[ax] = g; n[e1] = 6; n[e2] = 6
        d = [float(10**rng.uniform(-3.3, -2.7))]*3
        d = [d[0]]*3

        def V(p, q, h):
            ijk = [0, 0, 0]; ijk[e1], ijk[e2], ijk[ax] = p, q, h
            return model.lin(n, ijk)
        # ring
        cyc = [(2, 2), (3, 2), (4, 2), (4, 3), (4, 4), (3, 4), (2, 4), (2, 3)]
        ring = [V(p, q, g-1) for p, q in cyc]
        # driven open coil at the bottom with a gap
        coil = [V(p, q, 0) for p, q in [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (4, 5), (3, 5), (2, 5), (1, 5), (1, 4), (1, 3)]]
        dom = {"coil": coil[1:-1], "src": [coil[0]], "sink": [coil[-1]], "ring": ring[1:], "ref": [ring[0]]}
        has_mag = i % 3 != 0
        if has_mag:
            h0, h1 = int(rng.integers(1, 3)), int(rng.integers(5, 8))
            dom["core"] = [V(p, q, h) for h in range(h0, h1) for p in (3, 4) for q in (2, 3)]
        ring_rho = 1e-3
        lump = lambda dl, mt="electric": {"domain_list": dl, "material_type": mt, "orientation_type": "isotropic", "var_type": "lumped"}
        P = {"n": n, "d": d, "c": [float(x) for x in rng.normal(size=3)*0.01], "dom": dom,
             "material_def": {"w": lump(["coil", "src", "sink"]), "r": lump(["ring", "ref"])},
             "source_def": {"s": {"domain_list": ["src"], "source_type": "current", "var_type": "lumped"}, "k": {"domain_list": ["sink"], "source_type": "voltage", "var_type": "lumped"},
                            "ref": {"domain_list": ["ref"], "source_type": "voltage", "var_type": "lumped"}},
             "param": {"freq": float(10**rng.uniform(1, 3)), "material_val": {"w": {"rho_re": 1e-8, "rho_im": 0.0}, "r": {"rho_re": ring_rho, "rho_im": 0.0}},
                       "source_val": {"s": {"I_re": float(rng.normal()), "I_im": float(rng.normal()), "Y_re": 0.0, "Y_im": 0.0}, "k": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0},
                                      "ref": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
        if has_mag:
            P["material_def"]["m"] = lump(["core"], "magnetic")
            P["param"]["material_val"]["m"] = {"chi_re": float(10**rng.uniform(1, 3)), "chi_im": 0.0}
        # 5x5 Gauss points over the loop area between the ring voxel centres
        x, w = np.polynomial.legendre.leggauss(5)
        cc = model.centre(n, d, P["c"], V(3, 3, g-1))
        pts, ww = [], []
        for a in range(5):
            for b in range(5):
                p = cc.copy(); p[e1] += x[a]*d[0]; p[e2] += x[b]*d[0]
                pts.append(p); ww.append(w[a]*w[b]*d[0]**2)
        s, _ = lib.solve1(ctx, P, gen.tol(), pts)
        if s is None:
            return
        H = var(s, "H_p")
        flux = model.MU0*np.sum(np.array(ww)*H[:, ax])
        v = lib.View(P, s)
        # current along the ring direction (first step from ring[0] to ring[1] is +e1)
        k = [f for f, (a, lo, up) in enumerate(v.c.faces) if a == e1 and v.c.vox[lo] == ring[0] and v.c.vox[up] == ring[1]][0]
        I = v.I_fc[k]
        R = 8*ring_rho/d[0]
        ctx.case({**gen.describe(P), "probe": True})
        ctx.close(I*R, -2j*np.pi*s["freq"]*flux, 0.05, "induced voltage of a probe ring against the field flux")
        ctx.count("probe_magnetic" if has_mag else "probe_electric")

    def large(rng, i):
        P = gen.large_problem(rng, (150, 1500), n_mag=bool(i % 2))
        pts = lib.outside_points(rng, P, int(10**rng.uniform(2, 3.8)))
        for mode in ("face", "voxel"):
            s, sol = lib.solve1(ctx, P, gen.tol(biot_savart=mode, fft_options={"matrix_split": bool(i % 3 == 0)}), pts)
            if s is None:
                ctx.case(gen.describe(P), False)
                return
            He, Hm, mag = expected(P, s, pts, mode)
            H = var(s, "H_p")
            ctx.expect(H.shape == (len(pts), 3), "one field vector per cloud point")
            ctx.close(H/mag[:, None], (He+Hm)/mag[:, None], TOL, "field at many points", scale=1.0, mode=mode, points=len(pts))
            ctx.count("points_large", len(pts))
        ctx.case({**gen.describe(P), "pts": len(pts)}, True)

    ctx.ploop("random", ctx.n(100, 1500), case)
    ctx.ploop("large", ctx.n(12, 120), large)
    ctx.ploop("far", ctx.n(16, 100), far_case)
    ctx.ploop("probe", ctx.n(16, 150), probe)
    lib.check_convergence_rate(ctx)
    if not ctx.only:
        ctx.expect(ctx.counters.get("magnetic_part_visible", 0) > 0, "magnetic contributions are exercised")
