"""C31: equivalent material and source definitions."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("each random problem is rewritten into equivalent forms (lumped->distributed, isotropic->anisotropic, electromagnetic->electric+magnetic, split/merged materials and sources, "
        "reordered domain lists and voxel indices with permuted values, sources split with proportional values) one by one and combined; all fields per voxel, source sums and totals are compared; "
        "planar/linear structures check that a component of another axis changes nothing and that the own one does; non-trivial: converged")
ASSUMPTIONS = ["tolerance 1e-6 of the physical scale (solver tolerance 1e-11)"]
TOL = 1e-6


def nvox(P, md):
    return sum(len(P["dom"][t]) for t in md["domain_list"])


def distribute_material(P, t):
    md, val = P["material_def"][t], P["param"]["material_val"][t]
    if md["var_type"] == "lumped":
        N = nvox(P, md)
        md["var_type"] = "distributed"
        for k in val:
            val[k] = [np.asarray(val[k]).tolist() for _ in range(N)]


def anisotropic(P, t):
    md, val = P["material_def"][t], P["param"]["material_val"][t]
    if md["orientation_type"] == "isotropic":
        md["orientation_type"] = "anisotropic"
        for k in val:
            val[k] = [float(val[k])]*3 if md["var_type"] == "lumped" else [[float(x)]*3 for x in val[k]]


def split_em(P, t):
    md, val = P["material_def"][t], P["param"]["material_val"][t]
    if md["material_type"] != "electromagnetic":
        return {}
    P["material_def"].pop(t); P["param"]["material_val"].pop(t)
    e, m = lib.clone(md), lib.clone(md)
    e["material_type"], m["material_type"] = "electric", "magnetic"
    P["material_def"][t+"_m"], P["material_def"][t+"_e"] = m, e
    P["param"]["material_val"][t+"_e"] = {k: v for k, v in val.items() if k.startswith("rho")}
    P["param"]["material_val"][t+"_m"] = {k: v for k, v in val.items() if k.startswith("chi")}
    return {t: [t+"_e", t+"_m"]}


def split_material(rng, P, t):
    md, val = P["material_def"][t], P["param"]["material_val"][t]
    if len(md["domain_list"]) < 2:
        return {}
    k = int(rng.integers(1, len(md["domain_list"])))
    P["material_def"].pop(t); P["param"]["material_val"].pop(t)
    N1 = sum(len(P["dom"][x]) for x in md["domain_list"][:k])
    parts = [(t+"_p", md["domain_list"][:k], slice(0, N1)), (t+"_q", md["domain_list"][k:], slice(N1, None))]
    if rng.random() < 0.5:
        parts.reverse()
    for name, dl, sl in parts:
        P["material_def"][name] = {**md, "domain_list": dl}
        P["param"]["material_val"][name] = {q: (lib.clone(v) if md["var_type"] == "lumped" else lib.clone(v[sl])) for q, v in val.items()}
    return {t: [x[0] for x in parts]}


def distribute_source(P, t):
    sd, val = P["source_def"][t], P["param"]["source_val"][t]
    if sd["var_type"] != "lumped":
        return
    N = nvox(P, sd)
    sd["var_type"] = "distributed"
    for k in val:
        f = {"I": 1/N, "Y": 1/N, "V": 1.0, "Z": float(N)}[k[0]]
        val[k] = [val[k]*f]*N


def split_source(rng, P, t):
    sd, val = P["source_def"][t], P["param"]["source_val"][t]
    if len(sd["domain_list"]) < 2:
        return {}
    k = int(rng.integers(1, len(sd["domain_list"])))
    P["source_def"].pop(t); P["param"]["source_val"].pop(t)
    N = nvox(P, sd)
    N1 = sum(len(P["dom"][x]) for x in sd["domain_list"][:k])
    for name, dl, sl, Np in ((t+"_q", sd["domain_list"][k:], slice(N1, None), N-N1), (t+"_p", sd["domain_list"][:k], slice(0, N1), N1)):
        P["source_def"][name] = {**sd, "domain_list": dl}
        if sd["var_type"] == "distributed":
            P["param"]["source_val"][name] = {q: list(v[sl]) for q, v in val.items()}
        else:
            f = {"I": Np/N, "Y": Np/N, "V": 1.0, "Z": N/Np}
            P["param"]["source_val"][name] = {q: v*f[q[0]] for q, v in val.items()}
    return {t: [t+"_p", t+"_q"]}


def permute_domains(rng, P):
    for defs, vals in ((P["material_def"], P["param"]["material_val"]), (P["source_def"], P["param"]["source_val"])):
        for t, md in defs.items():
            old = list(md["domain_list"])
            start, k = {}, 0
            for x in old:
                start[x] = k; k += len(P["dom"][x])
            new = list(old); rng.shuffle(new)
            md["domain_list"] = new
            if md["var_type"] == "distributed":
                pos = np.concatenate([start[x]+np.arange(len(P["dom"][x])) for x in new]).astype(int)
                for q in vals[t]:
                    vals[t][q] = np.asarray(vals[t][q])[pos].tolist()


def permute_indices(rng, P):
    perm = {x: rng.permutation(len(v)) for x, v in P["dom"].items()}
    for x, v in P["dom"].items():
        P["dom"][x] = [v[k] for k in perm[x]]
    for defs, vals in ((P["material_def"], P["param"]["material_val"]), (P["source_def"], P["param"]["source_val"])):
        for t, md in defs.items():
            if md["var_type"] == "distributed":
                pos, k = [], 0
                for x in md["domain_list"]:
                    pos += list(k+perm[x]); k += len(perm[x])
                for q in vals[t]:
                    vals[t][q] = np.asarray(vals[t][q])[np.array(pos, int)].tolist()


def run(ctx):
    KINDS = ["material distributed", "material anisotropic", "electric+magnetic", "material split", "source distributed", "source split", "domain order", "index order", "all"]

    def rewrite(rng, P, kind):
        Q = lib.clone(P)
        mm, ss = {}, {}
        on = lambda k: kind == k or (kind == "all" and rng.random() < 0.7)
        if on("domain order"):
            permute_domains(rng, Q)
        if on("index order"):
            permute_indices(rng, Q)
        if on("material split"):
            for t in list(Q["material_def"]):
                mm.update(split_material(rng, Q, t))
        if on("electric+magnetic"):
            for t in list(Q["material_def"]):
                r = split_em(Q, t)
                for old, new in r.items():
                    hit = False
                    for o, lst in mm.items():
                        if old in lst:
                            lst.remove(old); lst += new; hit = True
                    if not hit:
                        mm[old] = new
        if on("material distributed"):
            for t in Q["material_def"]:
                distribute_material(Q, t)
        if on("material anisotropic"):
            for t in Q["material_def"]:
                anisotropic(Q, t)
        if on("source split"):
            for t in list(Q["source_def"]):
                ss.update(split_source(rng, Q, t))
        if on("source distributed"):
            for t in Q["source_def"]:
                distribute_source(Q, t)
        return Q, mm, ss

    def case(rng, i):
        kind = KINDS[i % len(KINDS)]
        kw = dict(n_mag=1) if i % 3 == 0 else {}
        while True:
            P = lib.big(rng, max_vox=50, **kw) if i % 5 == 0 else gen.random_problem(rng, **kw)
            # more electromagnetic materials
            for t, md in P["material_def"].items():
                if md["material_type"] == "electric" and rng.random() < 0.3:
                    md["material_type"] = "electromagnetic"
                    N = nvox(P, md)
                    P["param"]["material_val"][t].update({k: v for k, v in gen.mat_param(rng, "magnetic", md["var_type"], md["orientation_type"], N, 0.5).items()})
            Q, mm, ss = rewrite(rng, P, kind)
            if gen.describe(P) != gen.describe(Q):
                break
        pts = lib.outside_points(rng, P, 1)
        s1, sol1 = lib.solve1(ctx, P, pts=pts)
        s2, sol2 = lib.solve1(ctx, Q, pts=pts)
        if s1 is None or s2 is None:
            ctx.case(gen.describe(P), False)
            return
        sc = lib.View(P, s1).scales(lib.View(Q, s2))
        f1, c1, m1 = lib.by_voxel(sol1, s1)
        f2, c2, m2 = lib.by_voxel(sol2, s2)
        ctx.expect(np.array_equal(c1, c2) and np.array_equal(m1, m2), "same voxels")
        ctx.case({**gen.describe(P), "kind": kind}, lib.amax(f1["J_c"]) > 1e-6*sc["J_c"])
        ctx.count("kind:"+kind)
        for k in f1:
            ctx.close(f2[k], f1[k], TOL, "equivalent definition: field "+k, scale=sc[k], kind=kind)
        ctx.close(var(s2, "H_p"), var(s1, "H_p"), TOL, "equivalent definition: cloud", scale=max(lib.amax(var(s1, "H_p")), 1e-6*sc["H_p"]))
        for k in lib.CMP_INT:
            ctx.close(s2["integral"][k], s1["integral"][k], TOL, "equivalent definition: "+k, scale=sc[k], kind=kind)
        ctx.close(s2["integral"]["S_total"], s1["integral"]["S_total"], TOL, "equivalent definition: S_total", scale=sc["S"], kind=kind)
        for t in P["source_def"]:
            parts = [s2["source"][x] for x in ss.get(t, [t])]
            ctx.close(sum(x["I"] for x in parts), s1["source"][t]["I"], TOL, "equivalent definition: source current", scale=sc["I"], kind=kind)
            ctx.close(sum(x["S"] for x in parts), s1["source"][t]["S"], TOL, "equivalent definition: source power", scale=sc["S"], kind=kind)
            if len(parts) == 1:
                ctx.close(parts[0]["V"], s1["source"][t]["V"], TOL, "equivalent definition: source voltage", scale=sc["V"], kind=kind)
        for t in P["material_def"]:
            parts = [s2["material"][x] for x in mm.get(t, [t])]
            for k in ("P_electric", "P_magnetic", "P_total"):
                ctx.close(sum(x[k] for x in parts), s1["material"][t][k], TOL, "equivalent definition: material "+k, scale=sc[k], kind=kind)

    def axis_case(rng, i):
        # structures without faces along some axes: components of these axes are inert, the others are not
        flat = [[1, 4, 5], [4, 1, 5], [5, 4, 1], [6, 1, 1], [1, 6, 1], [1, 1, 6]][i % 6]
        P = None
        while P is None:
            P = gen._random_problem(rng, (5, 5, 5), 1, 0, False, None, 0.3, ("current", "voltage"), ("lumped", "distributed"), ("anisotropic",), True, 14)
            if P is None:
                continue
            n = flat
            free = range(int(np.prod(n)))
            dom = {}
            tot = sum(len(v) for t, v in P["dom"].items() if t.startswith("c"))
            b = gen.blob(rng, n, tot, free, 0.9)
            if len(b) < tot:
                P = None
                continue
            k = 0
            for t, v in P["dom"].items():
                dom[t] = b[k:k+len(v)]; k += len(v)
            P["n"], P["dom"] = list(n), dom
        em = i % 2
        if em:
            t = sorted(P["material_def"])[0]
            md = P["material_def"][t]
            md["material_type"] = "electromagnetic"
            P["param"]["material_val"][t].update(gen.mat_param(rng, "magnetic", md["var_type"], "anisotropic", nvox(P, md), 0.5))
        dead = [a for a in range(3) if n[a] == 1]
        a = int(rng.choice(dead))
        Q = lib.clone(P)
        for t, md in Q["material_def"].items():
            for k, v in Q["param"]["material_val"][t].items():
                x = np.array(v, float)
                x[..., a] *= float(10**rng.uniform(-2, 2))
                if np.all(x[..., a] == 0):
                    continue
                Q["param"]["material_val"][t][k] = x.tolist()
        s1, _ = lib.solve1(ctx, P)
        s2, _ = lib.solve1(ctx, Q)
        if s1 is None or s2 is None:
            return
        sc = lib.View(P, s1).scales(lib.View(Q, s2))
        ctx.case({**gen.describe(P), "axis": a})
        lib.compare_outputs(ctx, s1, s2, sc, TOL, "component of an axis without faces")
        # the own component acts: the terminal relation of a line follows the resistivity of its axis (see C01 for the general case)
        live = [q for q in range(3) if n[q] > 1]
        if len(live) == 1 and not em:
            q = live[0]
            v = lib.View(P, s1)
            A = v.c.area[q]
            if v.freq == 0:
                for f, (ax, lo, up) in enumerate(v.c.faces):
                    r = 0.5*(v.c.rho[lo, q]+v.c.rho[up, q])*P["d"][q]/A
                    ctx.close(var(s1, "V_c")[lo]-var(s1, "V_c")[up], r*v.I_fc[f], TOL, "Ohm law of the own axis component", scale=sc["V"])
                ctx.count("ohm_axis")

    ctx.ploop("equivalent", ctx.n(160, 2500), case)
    ctx.ploop("axis", ctx.n(60, 600), axis_case)
    lib.check_convergence_rate(ctx)
