"""C15: STL meshes."""
import os
import numpy as np
import pyvista as pv
import pypeec
import gen, meshlib, model
from meshlib import doms

RULE = ("random closed solids with analytic inside tests (boxes, rotated boxes, spheres, tetrahedra, L-shapes as several files) written as binary/ASCII STL with scale and offset; every voxel whose corners are all "
        "inside must be in the domain, every voxel separated from the solid must not; grid from given or computed bounds; scaled/translated file content against the options; non-trivial: inside and outside voxels decided")
ASSUMPTIONS = ["a voxel partly covered by a solid is not judged", "STL files store single precision: margin 1e-4 of the solid size"]


def solid(rng):
    """(mesh, signed distance function (negative inside, within a tolerance), kind)"""
    kind = str(rng.choice(["box", "rot", "sphere", "tetra"]))
    if kind in ("box", "rot"):
        h = rng.uniform(0.3, 1.0, 3)
        o = rng.normal(size=3)*0.5
        if kind == "rot":
            q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
            if np.linalg.det(q) < 0:
                q[:, 0] *= -1
        else:
            q = np.eye(3)
        m = pv.Box(bounds=(-h[0], h[0], -h[1], h[1], -h[2], h[2])).triangulate()
        m.points = np.asarray(m.points)@q.T+o

        def sd(p):
            u = np.abs((p-o)@q)-h
            out = np.linalg.norm(np.maximum(u, 0), axis=1)
            return np.where(np.all(u <= 0, axis=1), np.max(u, axis=1), out)
        return m, sd, kind
    if kind == "sphere":
        r = float(rng.uniform(0.4, 1.0))
        o = rng.normal(size=3)*0.5
        m = pv.Sphere(radius=r, center=o, theta_resolution=40, phi_resolution=40)
        return m, (lambda p: np.where((s := np.linalg.norm(p-o, axis=1)-r) < 0, s+0.012*r, s)*1.0), kind
    while True:
        v = rng.normal(size=(4, 3))
        vol = np.linalg.det(v[1:]-v[0])/6
        if abs(vol) > 0.4:
            break
    if vol < 0:
        v = v[[0, 2, 1, 3]]
    f = np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]])
    m = pv.PolyData(v, np.hstack([[3, *x] for x in f]))

    def sd(p):
        d = []
        for x in f:
            nrm = np.cross(v[x[1]]-v[x[0]], v[x[2]]-v[x[0]])
            nrm = nrm/np.linalg.norm(nrm)
            d.append((p-v[x[0]])@nrm)
        # max plane distance: exact inside, a lower bound of the distance outside
        return np.max(d, axis=0)
    return m, sd, kind


def geometry(d, xmin, xmax, stl, **kw):
    fl = lambda x: None if x is None else [float(y) for y in x]
    return gen.merge({
        "mesh_type": "stl", "data_voxelize": {"param": {"d": fl(d), "xyz_min": fl(xmin), "xyz_max": fl(xmax)}, "domain_stl": stl},
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}}}, kw)


def corners(out):
    n, d, c = np.array(out["n"]), np.array(out["d"], float), np.array(out["c"], float)
    idx = np.array([model.unlin(n, v) for v in range(int(np.prod(n)))])
    lo = c-n*d/2+idx*d
    k = np.array([[a, b, e] for a in (0, 1) for b in (0, 1) for e in (0, 1)])
    return lo[:, None, :]+k[None]*d       # (nv, 8, 3)


def run(ctx):
    def case(rng, i):
        rich = i % 9 == 4
        nd = int(rng.integers(1, 9 if rich else 4))
        size = 10**rng.uniform(-3, 1)
        stl, sol = {}, {}
        lo, hi = np.full(3, np.inf), np.full(3, -np.inf)
        for k in range(nd):
            t = "dom_%d" % k
            stl[t], sol[t] = [], []
            for j in range(int(rng.integers(1, 6 if rich else 3))):
                m, sd, kind = solid(rng)
                sc = float(10**rng.uniform(-1, 1)) if rng.random() < 0.7 else 1.0
                # the physical solid is the unit solid scaled by size, plus the offset
                off = rng.normal(size=3)*size*(1.5 if rng.random() < 0.7 else 0.0)
                path = os.path.join(ctx.scratch, "s_%d_%d.stl" % (k, j))
                q = m.copy()
                q.points = np.asarray(q.points)*(size/sc)
                q.save(path, binary=bool(rng.integers(2)))
                stl[t].append({"scale": sc, "offset": [float(x) for x in off], "filename": path})
                sol[t].append((off, sd, kind))
                p = np.asarray(m.points)*size+off
                lo, hi = np.minimum(lo, p.min(axis=0)), np.maximum(hi, p.max(axis=0))
        d = (hi-lo)/(rng.uniform(10, 34, 3) if rich else rng.uniform(4, 11, 3))
        if i % 5 == 2:
            # a few voxels or a single voxel along some of the axes
            thin = rng.random(3) < 0.5
            d = np.where(thin, (hi-lo)/rng.uniform(0.6, 2.4, 3), d)
        mode = i % 4
        lim = -1.5 if i % 5 != 2 else 0.1
        xmin = None if mode in (0, 2) else lo-d*rng.uniform(lim, 2.5, 3)
        xmax = None if mode in (0, 1) else hi+d*rng.uniform(lim, 2.5, 3)
        names = list(stl)
        rules = [{"domain_resolve": names[a:], "domain_keep": [names[a-1]]} for a in range(1, nd)]
        g = geometry(d, xmin, xmax, stl, data_conflict={"resolve_rules": True, "conflict_rules": rules})
        out = meshlib.mesh(ctx, g)
        meshlib.check_common(ctx, out)
        lo2, hi2 = (lo if xmin is None else xmin), (hi if xmax is None else xmax)
        n = np.array(out["n"])
        L = np.max(hi2-lo2)+np.max(np.abs([lo2, hi2]))
        r = (hi2-lo2)/d
        ctx.expect(np.all(np.abs(n-r) <= 0.5+1e-3), "voxel count fits the bounds", n=n, ratio=r)
        ctx.close(np.array(out["c"]), (lo2+hi2)/2, 1e-5, "centre of the bounds", scale=L)
        ctx.close(np.array(out["d"])*n, hi2-lo2, 1e-5, "extent is the bounds", scale=L)
        got = {t: set(v) for t, v in doms(out).items()}
        ctx.expect(list(got) == names, "domain names")
        C = corners(out)
        D = np.array(out["d"])
        half = np.linalg.norm(D)/2
        nin = nout = 0
        state = {}
        for t in names:
            ins, outs = np.zeros(len(C), bool), np.ones(len(C), bool)
            for (off, sd, kind) in sol[t]:
                s = sd((C.reshape(-1, 3)-off)/size).reshape(len(C), 8)*size
                tol = 1e-4*L
                ins |= np.all(s < -tol, axis=1)
                cen = sd((C.mean(axis=1)-off)/size)*size
                # the voxel box does not touch the solid: all corners outside and the centre farther than its radius, or axis separation
                sep = cen > half+tol
                if kind == "box":
                    sep |= box_sep(C, D, off, sd, size, tol)
                outs &= sep
            state[t] = (ins, outs)
        for a, t in enumerate(names):
            ins, outs = state[t]
            before = names[:a]
            for v in range(len(C)):
                # removed by an earlier domain: only judged when that one is decided
                if v in got[t]:
                    ctx.expect(not outs[v], "voxel away from the solid is in the domain", domain=t, voxel=v) if outs[v] else None
                elif ins[v] and all(state[b][1][v] for b in before):
                    ctx.fail("voxel inside the solid is not in its domain", domain=t, voxel=v)
                nin += int(ins[v]); nout += int(outs[v])
                ctx.count("assertions")
        ctx.case({"n": out["n"], "domains": {t: [[s["scale"], s["offset"], k[2]] for s, k in zip(stl[t], sol[t])] for t in names}, "d": d, "bounds": [xmin, xmax]}, nin > 0 and nout > 0)
        ctx.count("inside", nin); ctx.count("outside", nout)
        # reference mesh: the geometry given
        pts = np.asarray(out["reference"]["points"])
        ctx.close(np.array([pts.min(axis=0), pts.max(axis=0)]), np.array([lo, hi]), 1e-5, "reference mesh bounds", scale=L)

    def box_sep(C, D, off, sd, size, tol):
        # for axis-aligned boxes the minimum over the voxel is attained per axis: sample the closest point iteratively
        lo, hi = C.min(axis=1), C.max(axis=1)
        x = (lo+hi)/2
        # project the centre of the solid on the voxel (convex sets: alternating projection is exact for aligned boxes)
        # the solid centre is recovered from symmetry of the distance: use the deepest of a few projections
        best = np.full(len(C), np.inf)
        for p in probes(sd):
            q = np.clip(p*size+off, lo, hi)
            best = np.minimum(best, sd((q-off)/size)*size)
        return best > tol

    def probes(sd):
        # centre of the box from its signed distance (gradient-free: it is kept by the closure)
        f = sd.__closure__
        o = [c.cell_contents for c in f if isinstance(c.cell_contents, np.ndarray) and c.cell_contents.ndim == 1]
        cand = []
        names = sd.__code__.co_freevars
        cand.append(dict(zip(names, [c.cell_contents for c in f]))["o"])
        return cand

    ctx.ploop("solids", ctx.n(150, 2000), case)

    # thin voxel-aligned boxes: exact placement, axis order
    def aligned(rng, i):
        n = [int(x) for x in rng.integers(3, 9, 3)]
        d = np.array(gen.rand_size(rng))
        org = rng.normal(size=3)*d*5
        b0 = np.array([int(rng.integers(0, x-1)) for x in n])
        b1 = np.array([int(rng.integers(l+1, x))+1 for l, x in zip(b0, n)])
        b1 = np.minimum(b1, n)
        eps = 0.2
        lo, hi = org+(b0+eps)*d, org+(b1-eps)*d
        m = pv.Box(bounds=(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])).triangulate()
        path = os.path.join(ctx.scratch, "a.stl")
        m.save(path)
        g = geometry(d, org, org+n*d, {"a": [{"scale": 1.0, "offset": [0.0]*3, "filename": path}]})
        inner = b1-b0-2
        ctx.case({"n": n, "b0": b0, "b1": b1})
        out = meshlib.mesh(ctx, g)
        ctx.expect(list(out["n"]) == n, "grid size")
        got = {tuple(model.unlin(n, v)) for v in doms(out)["a"]}
        for p in got:
            ctx.expect(np.all(np.array(p) >= b0) and np.all(np.array(p) < b1), "voxels stay inside the covered range", voxel=p, b0=b0, b1=b1)
        if np.all(inner >= 1):
            for p in np.ndindex(*inner):
                ctx.expect(tuple(b0+1+np.array(p)) in got, "voxels inside the box are present")
        ctx.count("aligned_nonempty", int(bool(got)))
    ctx.ploop("aligned", ctx.n(80, 800), aligned)

    # bounds entirely inside of the solids: every voxel is filled, also a single one
    def inner(rng, i):
        n = [int(x) for x in rng.choice([1, 1, 1, 2, 3], 3)] if i % 3 else [1, 1, 1]
        d = np.array(gen.rand_size(rng))
        org = rng.normal(size=3)*d*5
        names = [str(x) for x in rng.permutation(["a", "b", "c"])[:int(rng.integers(1, 4))]]
        stl, rules, hit = {}, [], str(rng.choice(names))
        for t in names:
            # one of the domains covers the grid, the others are elsewhere
            lo, hi = org-d*rng.uniform(0.05, 3, 3), org+n*d+d*rng.uniform(0.05, 3, 3)
            if t != hit:
                s = (hi-lo)*(np.arange(3) == int(rng.integers(3)))*float(rng.choice([-1, 1]))*1.3
                lo, hi = lo+s, hi+s
            path = os.path.join(ctx.scratch, "inner_%s.stl" % t)
            pv.Box(bounds=(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])).triangulate().save(path)
            stl[t] = [{"scale": 1.0, "offset": [0.0]*3, "filename": path}]
        ctx.case({"n": n, "d": d, "names": names, "hit": hit})
        out = meshlib.mesh(ctx, geometry(d, org, org+n*d, stl))
        ctx.expect(list(out["n"]) == n, "grid size (bounds inside the solid)")
        got = doms(out)
        N = int(np.prod(n))
        for t in names:
            ctx.expect(got[t] == (list(range(N)) if t == hit else []), "all the voxels of a covered grid are in the covering domain", n=n, domain=t, hit=hit, got=got[t])
        ctx.count("inner_%d" % N)
    ctx.ploop("inner", ctx.n(80, 800), inner)

    # scaling and translating the file content equals the options; several files are united
    def equiv(rng, i):
        m, sd, kind = solid(rng)
        m2, _, _ = solid(rng)
        k = float(2.0**rng.integers(-4, 5))
        off = np.round(rng.normal(size=3)*2)/8
        a, b, c, e = (os.path.join(ctx.scratch, "%s.stl" % x) for x in "abce")
        pts = np.round(np.asarray(m.points, np.float64)*256)/256
        for mm, p, x in ((m, a, pts), (m, b, pts*k+off)):
            q = mm.copy(); q.points = x; q.save(p)
        m2.save(c)
        lo, hi = (pts*k+off).min(axis=0), (pts*k+off).max(axis=0)
        d = (hi-lo)/rng.uniform(5, 9, 3)
        xb = (lo-0.37*d, hi+0.73*d)
        one = lambda f, s, o: {"a": [{"scale": s, "offset": [float(x) for x in o], "filename": f}]}
        r1 = meshlib.mesh(ctx, geometry(d, *xb, one(a, k, off)))
        r2 = meshlib.mesh(ctx, geometry(d, *xb, one(b, 1.0, [0]*3)))
        ctx.case({"kind": kind, "scale": k, "offset": off})
        s1, s2 = set(doms(r1)["a"]), set(doms(r2)["a"])
        ctx.expect(len(s1 ^ s2) <= 0.01*len(s1)+(0 if len(s1) < 50 else 1), "scale and offset options equal a scaled and translated file", diff=len(s1 ^ s2), size=len(s1))
        # the order is scale first, then offset; with computed bounds the grids agree too
        r3, r4 = meshlib.mesh(ctx, geometry(d, None, None, one(a, k, off))), meshlib.mesh(ctx, geometry(d, None, None, one(b, 1.0, [0]*3)))
        ctx.expect(list(r3["n"]) == list(r4["n"]), "grid of the scaled file")
        ctx.close(np.array(r3["c"]), np.array(r4["c"]), 1e-6, "centre of the scaled file", scale=np.max(np.abs([lo, hi])))
        # union of two files of a domain
        two = {"a": one(a, k, off)["a"]+[{"scale": k, "offset": [float(x) for x in off], "filename": c}]}
        u = set(doms(meshlib.mesh(ctx, geometry(d, *xb, two)))["a"])
        s3 = set(doms(meshlib.mesh(ctx, geometry(d, *xb, one(c, k, off))))["a"]) if True else set()
        ctx.expect(u == s1 | s3, "several files are united", got=len(u), want=len(s1 | s3))
        # a domain without voxels is empty or rejected
        far = {"a": one(a, k, off)["a"], "z": one(c, k, off+100*k)["a"]}
        try:
            o = pypeec.run_mesher_data(geometry(d, *xb, far))["data_geom"]
            ctx.expect(doms(o)["z"] == [] and set(doms(o)["a"]) == s1, "a solid outside the grid gives no voxels")
        except Exception:
            ctx.count("outside_rejected")
        # invalid files
        txt = os.path.join(ctx.scratch, "text.stl")
        with open(txt, "w") as f:
            f.write("hello")
        empty = os.path.join(ctx.scratch, "empty.stl")
        open(empty, "w").close()
        for what, h in (("missing file", one(os.path.join(ctx.scratch, "none.stl"), 1.0, [0]*3)), ("not an STL", one(txt, 1.0, [0]*3)), ("empty file", one(empty, 1.0, [0]*3)),
                        ("zero scale", one(a, 0.0, [0]*3)), ("negative scale", one(a, -1.0, [0]*3)), ("no file", {"a": []}), ("offset of two values", one(a, 1.0, [0.0]*2))):
            ctx.raises(pypeec.run_mesher_data, geometry(d, None, None, h), what=what)
        for what, (dd, x0, x1) in (("inverted bounds", (d, xb[1], xb[0])), ("empty bounds", (d, xb[0], xb[0])), ("too large voxel", ((hi-lo)*5, None, None)), ("zero voxel", (d*0, *xb)), ("negative voxel", (-d, *xb))):
            ctx.raises(pypeec.run_mesher_data, geometry(dd, x0, x1, one(a, k, off)), what=what)
    ctx.ploop("equivalence", ctx.n(40, 400), equiv)
    if not ctx.only:
        ctx.expect(ctx.counters.get("inside", 0) > 1000 and ctx.counters.get("outside", 0) > 1000, "workload decides inside and outside voxels")
