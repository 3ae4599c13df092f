"""C07: relabelling and geometric transformations."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("each random problem (small and larger, anisotropic/distributed materials, magnetic parts, cloud points) is solved as is and after a random composition of translation, padding, "
        "axis permutation, mirroring, renumbering of voxels inside domains, renaming/reordering of domains, materials and sources, splitting of domains; scalars must agree and "
        "fields must map as (pseudo-)scalars and (pseudo-)vectors voxel by voxel; a second stage scales all lengths; non-trivial: converged, currents above scale")
ASSUMPTIONS = ["tolerance 1e-6 of the physical scale (solver tolerance 1e-11)"]
TOL = 1e-6


def transform(rng, P, pts, kinds):
    """Returns (P', pts', T, vmap, note) with T the signed permutation and vmap old voxel -> new voxel."""
    Q = lib.clone(P)
    n, d, c = np.array(P["n"]), np.array(P["d"], float), np.array(P["c"], float)
    perm = np.arange(3)
    sign = np.ones(3, int)
    pad_lo, pad_hi = np.zeros(3, int), np.zeros(3, int)
    shift = np.zeros(3)
    note = []
    if "perm" in kinds:
        perm = rng.permutation(3); note.append("perm%s" % list(perm))
    if "mirror" in kinds:
        sign = rng.choice([-1, 1], 3); note.append("sign%s" % list(sign))
    if "pad" in kinds:
        pad_lo, pad_hi = rng.integers(0, 4, 3), rng.integers(0, 4, 3); note.append("pad")
    if "shift" in kinds:
        shift = rng.normal(size=3)*float(10**rng.uniform(-3, 1)); note.append("shift")
    # new axis a takes old axis perm[a], with sign[a]
    n2 = n[perm]+pad_lo+pad_hi
    d2 = d[perm]

    def vmap(v):
        o = model.unlin(n, v)[perm]
        o = np.where(sign > 0, o, n[perm]-1-o)+pad_lo
        return model.lin(n2, o)
    # the structure centre (old grid centre) is mapped to shift + sign*c[perm]
    c_old = sign*c[perm]
    c2 = c_old+shift+(pad_hi-pad_lo)*d2/2
    T = np.zeros((3, 3)); T[np.arange(3), perm] = sign
    Q["n"], Q["d"], Q["c"] = n2.tolist(), d2.tolist(), c2.tolist()
    Q["dom"] = {k: [vmap(i) for i in v] for k, v in P["dom"].items()}
    pts2 = np.asarray(pts).reshape(-1, 3)@T.T+shift
    for t, md in P["material_def"].items():
        if md["orientation_type"] == "anisotropic":
            for k, v in P["param"]["material_val"][t].items():
                Q["param"]["material_val"][t][k] = np.asarray(v, float)[..., perm].tolist()
    if "reorder" in kinds:
        note.append("reorder")
        Q = reorder(rng, Q)
    if "split" in kinds:
        note.append("split")
        Q = split_domain(rng, Q)
    return Q, pts2, T, vmap, note


def reorder(rng, P):
    Q = lib.clone(P)

    def sh(x):
        k = list(x); rng.shuffle(k)
        return {t: x[t] for t in k}
    # reorder voxels in the domains: distributed values follow
    newpos = {}
    for t in Q["dom"]:
        p = rng.permutation(len(Q["dom"][t]))
        Q["dom"][t] = [Q["dom"][t][i] for i in p]
        newpos[t] = p

    def permute(md, val):
        # new order of the domains in the list, and new order inside the domains
        old = md["domain_list"]
        start, k = {}, 0
        for t in old:
            start[t] = k; k += len(P["dom"][t])
        new = list(old); rng.shuffle(new)
        pos = np.concatenate([start[t]+newpos[t] for t in new]).astype(int)
        md["domain_list"] = new
        if md["var_type"] == "distributed":
            for q in val:
                val[q] = np.asarray(val[q])[pos].tolist()
    for t, md in Q["material_def"].items():
        permute(md, Q["param"]["material_val"][t])
    for t, md in Q["source_def"].items():
        permute(md, Q["param"]["source_val"][t])
    Q["dom"], Q["material_def"], Q["source_def"] = sh(Q["dom"]), sh(Q["material_def"]), sh(Q["source_def"])
    Q["param"]["material_val"], Q["param"]["source_val"] = sh(Q["param"]["material_val"]), sh(Q["param"]["source_val"])
    # rename the domains
    ren = {t: "dom_%s_%d" % (t, int(rng.integers(100))) for t in Q["dom"]}
    Q["dom"] = {ren[t]: v for t, v in Q["dom"].items()}
    for md in list(Q["material_def"].values())+list(Q["source_def"].values()):
        md["domain_list"] = [ren[t] for t in md["domain_list"]]
    return Q


def split_domain(rng, P):
    Q = lib.clone(P)
    big = [t for t, v in Q["dom"].items() if len(v) >= 2]
    if not big:
        return Q
    t = str(rng.choice(big))
    v = Q["dom"][t]
    k = int(rng.integers(1, len(v)))
    new = {}
    for q, x in Q["dom"].items():
        if q == t:
            new[t+"_x"], new[t+"_y"] = v[:k], v[k:]
        else:
            new[q] = x
    Q["dom"] = new
    for md in list(Q["material_def"].values())+list(Q["source_def"].values()):
        md["domain_list"] = [y for q in md["domain_list"] for y in ([q] if q != t else [t+"_x", t+"_y"])]
    return Q


def compare(ctx, P, sol1, s1, sol2, s2, T, vmap, sc, tag):
    f1, c1, m1 = lib.by_voxel(sol1, s1)
    f2, c2, m2 = lib.by_voxel(sol2, s2)
    mc, mm = np.array([vmap(v) for v in c1], int), np.array([vmap(v) for v in m1], int)
    oc, om = np.argsort(mc), np.argsort(mm)
    if not (ctx.expect(np.array_equal(mc[oc], c2), tag+": electric voxels map") and ctx.expect(np.array_equal(mm[om], m2), tag+": magnetic voxels map")):
        return
    det = np.linalg.det(T)
    for k in ("V_c", "P_c", "S_c"):
        ctx.close(f2[k], f1[k][oc], TOL, "transformed field "+k, scale=sc[k], how=tag)
    ctx.close(f2["J_c"], f1["J_c"][oc]@T.T, TOL, "transformed field J_c", scale=sc["J_c"], how=tag)
    ctx.close(f2["B_m"], det*f1["B_m"][om]@T.T, TOL, "transformed field B_m", scale=sc["B_m"], how=tag)
    ctx.close(f2["P_m"], f1["P_m"][om], TOL, "transformed field P_m", scale=sc["P_m"], how=tag)
    for k in ("V_m", "Q_m"):
        ctx.close(f2[k], det*f1[k][om], TOL, "transformed field "+k, scale=sc[k], how=tag)
    if np.size(var(s1, "H_p")):
        ctx.close(var(s2, "H_p"), det*var(s1, "H_p")@T.T, TOL, "transformed cloud field", scale=max(lib.amax(var(s1, "H_p")), 1e-6*sc["H_p"]), how=tag)
    lib.compare_scalars(ctx, s1, s2, sc, TOL, "transformed")
    ctx.expect(set(s1["material"]) == set(s2["material"]), "same materials")


def run(ctx):
    ALL = ["shift", "pad", "perm", "mirror", "reorder", "split"]

    def case(rng, i):
        kw = dict(n_mag=1) if i % 2 else {}
        P = lib.big(rng, max_vox=60, **kw) if i % 6 == 0 else gen.random_problem(rng, **kw)
        pts = lib.outside_points(rng, P, 2)
        vox1 = lib.mesh(ctx, P, pts)
        # the closed formulas everywhere, or the approximation beyond some normalised distance
        far = float(rng.uniform(0.6, 5.0)) if rng.random() < 0.5 else 1000.0
        ctx.count("far_field", int(far < 1000))
        sol1 = ctx.call(pypeec.run_solver_data, vox1, gen.data_problem(P), lib.cap(P, gen.tol(integral_simplify=far)))
        s1 = sol1["data_sweep"]["sim"]
        ctx.count("solves")
        if not s1["has_converged"]:
            ctx.count("not_converged")
            ctx.case(gen.describe(P), False)
            return
        sc = lib.View(P, s1).scales()
        kinds = [ALL[i % 6]] if i % 3 else list(ALL)
        k = ctx.n(2, 4)
        for q in range(k):
            Q, pts2, T, vmap, note = transform(rng, P, pts, kinds)
            vox2 = lib.mesh(ctx, Q, pts2)
            sol2 = ctx.call(pypeec.run_solver_data, vox2, gen.data_problem(Q), lib.cap(Q, gen.tol(integral_simplify=far, biot_savart="face", mult_type=str(rng.choice(["fft", "direct"])))))
            s2 = sol2["data_sweep"]["sim"]
            if not s2["has_converged"]:
                ctx.count("transformed_not_converged")
                continue
            compare(ctx, P, sol1, s1, sol2, s2, T, vmap, lib.View(P, s1).scales(lib.View(Q, s2)), "+".join(note))
            ctx.count("transforms")
            for x in kinds:
                ctx.count("kind:"+x)
            ctx.expect(sorted(len(x) for x in vox2["data_geom"]["graph_def"]) == sorted(len(x) for x in vox1["data_geom"]["graph_def"]), "same components")
            kinds = list(ALL)
        ctx.case(gen.describe(P), lib.amax(var(s1, "J_c")) > 1e-6*sc["J_c"])

    def scale(rng, i):
        kw = dict(n_mag=1) if i % 2 else {}
        P = gen.random_problem(rng, **kw)
        pts = lib.outside_points(rng, P, 2)
        k = float(10**rng.uniform(-1.5, 1.5))
        Q = lib.clone(P)
        Q["d"], Q["c"] = [x*k for x in P["d"]], [x*k for x in P["c"]]
        Q["param"]["freq"] = P["param"]["freq"]/k**2
        for t, v in Q["param"]["source_val"].items():
            for key in v:
                e = {"V": 1/k, "Z": 1/k, "Y": k, "I": 1.0}[key[0]]
                v[key] = (np.asarray(v[key])*e).tolist()
        far = float(rng.uniform(0.6, 5.0)) if rng.random() < 0.5 else 1000.0
        s1, sol1 = lib.solve1(ctx, P, gen.tol(integral_simplify=far), pts=pts)
        s2, sol2 = lib.solve1(ctx, Q, gen.tol(integral_simplify=far), pts=pts*k)
        if s1 is None or s2 is None:
            ctx.case(gen.describe(P), False)
            return
        sc = lib.View(P, s1).scales(lib.View(Q, s2))
        ctx.case({**gen.describe(P), "k": k})
        for f, e in (("V_c", -1), ("J_c", -2), ("S_c", -3), ("P_c", -4), ("V_m", 0), ("B_m", -1), ("Q_m", -2), ("P_m", -4)):
            ctx.close(var(s2, f), var(s1, f)*k**e, TOL, "scaled field "+f, scale=sc[f]*k**e)
        ctx.close(var(s2, "H_p"), var(s1, "H_p")/k, TOL, "scaled cloud field", scale=max(lib.amax(var(s1, "H_p")), 1e-6*sc["H_p"])/k)
        for f, e in (("P_electric", -1), ("P_magnetic", -1), ("P_total", -1), ("W_electric", 1), ("W_magnetic", 1), ("W_total", 1)):
            ctx.close(s2["integral"][f], s1["integral"][f]*k**e, TOL, "scaled "+f, scale=sc[f]*k**e)
        for t in P["source_def"]:
            ctx.close(s2["source"][t]["V"], s1["source"][t]["V"]/k, TOL, "scaled terminal voltage", scale=sc["V"]/k)
            ctx.close(s2["source"][t]["I"], s1["source"][t]["I"], TOL, "scaled terminal current", scale=sc["I"])

    ctx.ploop("transform", ctx.n(90, 1200), case)
    ctx.ploop("scale", ctx.n(48, 600), scale)
    lib.check_convergence_rate(ctx)
    if not ctx.only:
        ctx.expect(ctx.counters.get("transformed_not_converged", 0) <= 0.1*ctx.counters.get("transforms", 0)+3, "transformed problems converge")
