"""C19: mesh and problem summaries."""
import os
import numpy as np
import pypeec
import gen, lib, meshlib, model

RULE = ("random meshes of all four mesh types with resampling and points, and random problems; every number of the summaries is recounted from the returned index sets and geometry; "
        "non-trivial: at least two non-empty domains (meshes) or faces (problems)")
ASSUMPTIONS = ["the face total is three per grid voxel; the used faces are the interior faces between two voxels of the same physics"]


def check_mesh(ctx, out):
    st = out["voxel_status"]
    n, d = [int(x) for x in out["n"]], np.array(out["d"], float)
    dom = meshlib.doms(out)
    used = sorted({v for x in dom.values() for v in x})
    N = int(np.prod(n))
    s = np.array(n)*d
    want = {"n_total": N, "n_used": len(used), "n_domain": len(dom), "n_graph": len(out["graph_def"]), "n_cloud": len(np.asarray(out["pts_cloud"]).reshape(-1, 3))}
    for k, v in want.items():
        ctx.expect(int(st[k]) == v, "mesh summary %s" % k, got=st[k], want=v)
    flt = {"A_xy": s[0]*s[1], "A_yz": s[1]*s[2], "A_xz": s[0]*s[2], "V_total": np.prod(s), "V_used": len(used)*np.prod(d), "ratio": len(used)/N}
    for k, v in flt.items():
        ctx.close(float(st[k]), float(v), 1e-11, "mesh summary %s" % k)
    ctx.close(np.array(out["s"], float), s, 1e-11, "extent")
    ctx.expect(set(st) >= set(want) | set(flt), "mesh summary is complete")
    # the connected components of the used voxels
    ref = meshlib.comps(n, used)
    got = [frozenset(int(v) for v in np.asarray(x).ravel()) for x in (out["graph_def"].values() if isinstance(out["graph_def"], dict) else out["graph_def"])]
    ctx.expect(set(got) == ref and len(got) == len(ref), "component list matches the used voxels", got=len(got), want=len(ref))


def faces(n, vox):
    vs = set(vox)
    k = 0
    for v in vs:
        p = model.unlin(n, v)
        for a in range(3):
            q = np.array(p); q[a] += 1
            if q[a] < n[a] and model.lin(n, q) in vs:
                k += 1
    return k


def run(ctx):
    from checks import c13, c14, c15

    def vox(rng, i):
        n = meshlib.rand_grid(rng, hi=7, vmax=300)
        dom = meshlib.rand_domains(rng, n)
        d, c = gen.rand_size(rng), [float(x) for x in rng.normal(size=3)]
        m = int(rng.choice([0, 1, 7]))
        pts = [[float(x) for x in np.array(c)+(rng.random(3)-0.5)*(np.array(n)+5)*np.array(d)] for _ in range(m)]
        rs = {"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [int(x) for x in rng.integers(1, 4, 3)]}
        g = gen.geometry(n, d, c, dom, pts, data_resampling=rs, data_point={"check_cloud": bool(rng.integers(2)), "full_cloud": False})
        ctx.case(meshlib.desc(g), sum(bool(x) for x in dom.values()) >= 2)
        out = meshlib.mesh(ctx, g)
        check_mesh(ctx, out)
        ctx.expect(set(out["domain_def"]) == set(dom), "domain names")

    def large(rng, i):
        n = meshlib.large_grid(rng, 2e3, 8e4)
        dom = meshlib.large_domains(rng, n)
        g = gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom)
        ctx.case({"n": n, "domains": {k: len(v) for k, v in dom.items()}}, True)
        out = meshlib.mesh(ctx, g)
        used = [v for x in dom.values() for v in x]
        st, d = out["voxel_status"], np.array(out["d"], float)
        want = {"n_total": int(np.prod(n)), "n_used": len(used), "n_domain": len(dom), "n_graph": meshlib.label(n, used)[1], "n_cloud": 0}
        for k, v in want.items():
            ctx.expect(int(st[k]) == v, "mesh summary %s (large)" % k, got=st[k], want=v)
        s = np.array(n)*d
        for k, v in {"A_xy": s[0]*s[1], "A_yz": s[1]*s[2], "A_xz": s[0]*s[2], "V_total": np.prod(s), "V_used": len(used)*np.prod(d), "ratio": len(used)/np.prod(n)}.items():
            ctx.close(float(st[k]), float(v), 1e-11, "mesh summary %s (large)" % k)

    def conflict(rng, i):
        # overlapping domains with a resolution: the summary counts every voxel once
        n = meshlib.rand_grid(rng, hi=5, vmax=100)
        dom = meshlib.rand_domains(rng, n, overlap=0.4)
        g = gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom, data_conflict={"resolve_rules": False, "resolve_random": True, "conflict_rules": []})
        ctx.case(meshlib.desc(g), sum(bool(x) for x in dom.values()) >= 2)
        check_mesh(ctx, meshlib.mesh(ctx, g))

    def problem(rng, i):
        P = lib.big(rng) if rng.random() < 0.5 else gen.random_problem(rng)
        ctx.case(gen.describe(P), True)
        opt = gen.tol(solver_options={"direct_options": {"rel_tol": 1e-3, "n_inner": 10, "n_outer": 5}, "tolerance_options": {"ignore_status": True}}, condition_options={"check": False})
        sol = ctx.call(pypeec.run_solver_data, lib.mesh(ctx, P), gen.data_problem(P), opt)
        di = sol["data_init"]
        st = di["problem_status"]
        ec, em = set(), set()
        for md in P["material_def"].values():
            idx = model.dom_idx(P["dom"], md["domain_list"])
            if md["material_type"] in ("electric", "electromagnetic"):
                ec |= set(idx)
            if md["material_type"] in ("magnetic", "electromagnetic"):
                em |= set(idx)
        src = {"current": 0, "voltage": 0}
        for sd in P["source_def"].values():
            src[sd["source_type"]] += len(model.dom_idx(P["dom"], sd["domain_list"]))
        N = int(np.prod(P["n"]))
        fc, fm = faces(P["n"], ec), faces(P["n"], em)
        want = {"n_voxel_total": N, "n_face_total": 3*N, "n_voxel_electric": len(ec), "n_voxel_magnetic": len(em), "n_voxel_used": len(ec)+len(em),
                "n_face_electric": fc, "n_face_magnetic": fm, "n_face_used": fc+fm, "n_src_current": src["current"], "n_src_voltage": src["voltage"]}
        for k, v in want.items():
            ctx.expect(int(st[k]) == v, "problem summary %s" % k, got=st[k], want=v)
        ctx.close(float(st["ratio_voxel"]), (len(ec)+len(em))/N, 1e-12, "problem summary ratio_voxel")
        ctx.close(float(st["ratio_face"]), (fc+fm)/(3*N), 1e-12, "problem summary ratio_face")
        ctx.expect(sorted(int(x) for x in di["idx_vc"]) == sorted(ec) and sorted(int(x) for x in di["idx_vm"]) == sorted(em), "voxel index sets of the problem")

    def build(kind, rng):
        d, c = gen.rand_size(rng), [float(x) for x in rng.normal(size=3)]
        if kind == "png":
            nx, ny = [int(x) for x in rng.integers(1, 9, 2)]
            cols = [(255, 0, 0, 255), (0, 255, 0, 255), (0, 0, 0, 0)]
            stack = []
            for k in range(int(rng.integers(1, 4))):
                path = os.path.join(ctx.scratch, "l%d.png" % k)
                c13.rand_image(rng, nx, ny, cols, "RGBA").save(path)
                stack.append({"n_layer": int(rng.integers(1, 4)), "filename_list": [path]})
            return c13.geometry(d, c, [nx, ny], {"a": [list(cols[0])], "b": [list(cols[1])]}, stack)
        if kind == "shape":
            shapes = {}
            for k in range(2):
                q = rng.random(2)*4+6*k
                shapes["s%d" % k] = [{"shape_layer": ["A", "B"][:int(rng.integers(1, 3))], "shape_operation": "add", "shape_type": "pad",
                                      "shape_data": {"diameter": float(rng.uniform(2, 4)), "coord": [[float(x) for x in q]]}}]
            prm = {"dx": 0.4, "dy": 0.5, "dz": 0.1, "cz": float(rng.normal()), "simplify": None, "construct": None, "xy_min": None, "xy_max": None}
            return c14.geometry(prm, [{"n_layer": int(rng.integers(1, 4)), "tag_layer": t} for t in "AB"], shapes)
        stl = {}
        for k in range(2):
            path = os.path.join(ctx.scratch, "x%d.stl" % k)
            m, _, _ = c15.solid(rng)
            m.save(path)
            stl["s%d" % k] = [{"scale": 1.0, "offset": [4.0*k, 0.0, 0.0], "filename": path}]
        return c15.geometry([float(x) for x in rng.uniform(0.2, 0.5, 3)], None, None, stl)

    def typed(kind):
        def one(rng, i):
            g = build(kind, rng)
            rs = {"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [int(x) for x in rng.integers(1, 3, 3)]}
            g = gen.merge(g, {"data_resampling": rs})
            ctx.case({"type": kind, "geometry": g["data_voxelize"]}, True)
            check_mesh(ctx, meshlib.mesh(ctx, g))
        return one

    ctx.ploop("mesh", ctx.n(400, 5000), vox)
    ctx.ploop("large", ctx.n(16, 160), large)
    ctx.ploop("conflict", ctx.n(150, 2000), conflict)
    ctx.ploop("problem", ctx.n(100, 800), problem)
    for kind in ("png", "shape", "stl"):
        ctx.ploop(kind, ctx.n(24, 200), typed(kind))
