"""C18: cloud points."""
import numpy as np
import pypeec
import gen, meshlib, model

RULE = ("random geometries and random point sets (near and far, on all sides, empty, duplicated) with all option combinations; the filter is recomputed from the definition; "
        "non-trivial: some points removed and some kept")
ASSUMPTIONS = ["points closer than 1e-9 to the limit distance are not generated", "the limit is one voxel dimension of the voxelised structure, before resampling"]


def run(ctx):
    def case(rng, i):
        n = meshlib.rand_grid(rng, hi=5, vmax=80)
        dom = meshlib.rand_domains(rng, n, fill=float(rng.choice([0.05, 0.2, 0.5, 1.0])))
        d, c = np.array(gen.rand_size(rng)), rng.normal(size=3)*10**rng.uniform(-3, 0)
        act = np.array([model.centre(n, d, c, v) for v in sorted({v for x in dom.values() for v in x})])
        m = int(rng.choice([0, 1, 5, 30]))
        pts = []
        while len(pts) < m:
            if rng.random() < 0.5:
                q = c+(rng.random(3)-0.5)*(np.array(n)+4)*d
            else:
                # close to the limit of one voxel in one direction
                a = act[int(rng.integers(len(act)))]
                q = a+(rng.random(3)-0.5)*2*d
                ax = int(rng.integers(3))
                q[ax] = a[ax]+rng.choice([-1, 1])*d[ax]*(1+rng.choice([-1, 1])*10**rng.uniform(-5, -1))
            if pts and rng.random() < 0.1:
                q = np.array(pts[int(rng.integers(len(pts)))])
            if np.any(np.abs(np.abs(act-q)/d-1) < 1e-7):
                continue
            pts.append([float(x) for x in q])
        keep = [bool(np.all(np.any(np.abs(act-np.array(q)) > d, axis=1))) for q in pts]
        want = np.array([q for q, k in zip(pts, keep) if k]).reshape(-1, 3)
        ctx.case({"n": n, "d": d, "c": c, "dom": dom, "pts": pts, "keep": keep}, any(keep) and not all(keep))
        ctx.count("removed", keep.count(False)); ctx.count("kept", keep.count(True))
        rs = {"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [int(x) for x in rng.integers(1, 3, 3)]}
        for check in (False, True):
            for full in (False, True):
                g = gen.geometry(n, d, c, dom, pts, data_point={"check_cloud": check, "full_cloud": full}, data_resampling=rs)
                if check and full and not all(keep):
                    ctx.raises(pypeec.run_mesher_data, g, what="invalid points with a required full cloud")
                    ctx.count("full_error")
                    continue
                out = meshlib.mesh(ctx, g)
                got = np.asarray(out["pts_cloud"], float).reshape(-1, 3)
                ref = want if check else np.array(pts).reshape(-1, 3)
                ctx.expect(got.shape == ref.shape and np.array_equal(got, ref), "points of the cloud (check=%s, full=%s)" % (check, full), got=got, want=ref)
                ctx.expect(out["voxel_status"]["n_cloud"] == len(ref), "point count")
        for q in ([0.0, 0.0], [0.0]*4, ["a", 0, 0], 3.0, [None, 0, 0]):
            g = gen.geometry(n, d, c, dom, pts)
            g["data_point"]["pts_cloud"] = g["data_point"]["pts_cloud"]+[q]
            ctx.raises(pypeec.run_mesher_data, g, what="malformed point %r" % (q,))

    def large(rng, i):
        from scipy.spatial import cKDTree
        n = meshlib.large_grid(rng, 1e3, 4e4)
        dom = meshlib.large_domains(rng, n)
        d, c = np.array(gen.rand_size(rng)), rng.normal(size=3)*10**rng.uniform(-3, 0)
        act = meshlib.unlin_many(n, sorted({v for x in dom.values() for v in x}))+0.5
        m = int(rng.choice([200, 1100, 5000]))
        if i % 2:
            u = (rng.random((m, 3)))*(np.array(n)+4)-2
        else:
            u = act[rng.integers(0, len(act), m)]+(rng.random((m, 3))-0.5)*4
        dist = cKDTree(act).query(u, p=np.inf)[0]
        u, dist = u[np.abs(dist-1) > 1e-5], dist[np.abs(dist-1) > 1e-5]
        pts = u*d+(c-np.array(n)*d/2)
        keep = dist > 1
        g = gen.geometry(n, d, c, dom, [[float(x) for x in q] for q in pts], data_point={"check_cloud": True, "full_cloud": False})
        ctx.case({"n": n, "d": d, "c": c, "points": len(pts), "kept": int(keep.sum()), "used": len(act)}, bool(keep.any() and not keep.all()))
        ctx.count("removed", int((~keep).sum())); ctx.count("kept", int(keep.sum()))
        out = meshlib.mesh(ctx, g)
        got = np.asarray(out["pts_cloud"], float).reshape(-1, 3)
        ctx.expect(np.array_equal(got, pts[keep]), "points of the cloud (large)", n=n, got=len(got), want=int(keep.sum()))
        ctx.expect(out["voxel_status"]["n_cloud"] == int(keep.sum()), "point count")
    ctx.ploop("large", ctx.n(16, 160), large)

    ctx.ploop("random", ctx.n(300, 4000), case)
