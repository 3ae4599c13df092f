"""C27: voxel index helpers."""
import itertools
import numpy as np
import pypeec
from pypeec.utils import voxel
import gen, meshlib, model

RULE = ("all grids up to 5x5x5 with all indices and all their out-of-range neighbours, random large grids, and meshes where the helper indices select voxels that are located again "
        "through the cloud point filter; non-trivial: unequal grid sizes")
ASSUMPTIONS = ["non-integer indices are not judged"]


def run(ctx):
    def lin(n, t):
        return t[0]+n[0]*(t[1]+n[1]*t[2])

    def small(rng, i):
        n = [1+i % 5, 1+(i//5) % 5, 1+i//25]
        N = n[0]*n[1]*n[2]
        ctx.case({"n": n}, len(set(n)) > 1)
        tens = [[x, y, z] for z in range(n[2]) for y in range(n[1]) for x in range(n[0])]
        args = {"n": list(n), "t": [list(t) for t in tens]}
        got = np.asarray(ctx.call(voxel.get_idx_linear, n, tens))
        ctx.expect(got.tolist() == list(range(N)), "linear indices run along x, then y, then z", n=n)
        back = np.asarray(ctx.call(voxel.get_idx_tensor, n, list(range(N))))
        ctx.expect(back.tolist() == tens, "tensor indices", n=n)
        ctx.expect(args["n"] == n and args["t"] == tens, "arguments are not modified")
        # every index just outside, alone and among valid ones
        for ax in range(3):
            for v in (-1, n[ax], n[ax]+1, -n[ax]-1, 2*n[ax]+7):
                for rest in itertools.product(*[[0, n[k]-1] for k in range(3)]):
                    t = list(rest); t[ax] = v
                    ctx.raises(voxel.get_idx_linear, n, [t], what="tensor index %s in grid %s" % (t, n), allow=(ValueError,))
                ctx.raises(voxel.get_idx_linear, n, [[0, 0, 0], t, [0, 0, 0]], what="tensor index %s among valid ones in grid %s" % (t, n), allow=(ValueError,))
        for v in (-1, N, N+1, -N, -N-1, 3*N+5):
            ctx.raises(voxel.get_idx_tensor, n, [v], what="linear index %d in grid %s" % (v, n), allow=(ValueError,))
            ctx.raises(voxel.get_idx_tensor, n, [0, v, 0], what="linear index %d among valid ones in grid %s" % (v, n), allow=(ValueError,))

    def large(rng, i):
        n = [int(10**rng.uniform(0, 4)) for _ in range(3)]
        if rng.random() < 0.2:
            n = [int(10**rng.uniform(0, 6)) for _ in range(3)]     # products beyond 32 bits
        k = int(rng.integers(0, 50)) if i % 20 else int(rng.integers(500, 5000))
        t = np.stack([rng.integers(0, m, k) for m in n], axis=1)
        ctx.case({"n": n, "t": t[:5], "k": k}, k > 0 and len(set(n)) > 1)
        if k:
            form = t.tolist() if rng.random() < 0.5 else t
            got = np.asarray(ctx.call(voxel.get_idx_linear, n, form))
            want = [lin(n, [int(y) for y in x]) for x in t]
            ctx.expect([int(x) for x in got] == want, "linear indices of a large grid", n=n)
            ctx.expect(np.array_equal(np.asarray(ctx.call(voxel.get_idx_tensor, n, want)), t), "round trip of a large grid", n=n)
            small_type = t.astype(np.int32)
            got = np.asarray(ctx.call(voxel.get_idx_linear, n, small_type))
            ctx.expect([int(x) for x in got] == want, "linear indices from 32-bit input", n=n)
            ax = int(rng.integers(3))
            bad = t.copy()
            bad[int(rng.integers(k)), ax] = int(rng.choice([-1, n[ax], n[ax]+int(rng.integers(1, 100))]))
            ctx.raises(voxel.get_idx_linear, n, bad, what="tensor index outside a large grid", allow=(ValueError,))

    def mesher(rng, i):
        # a voxel selected with the helper is where its tensor index says, in the mesher
        n = meshlib.rand_grid(rng, hi=6, vmax=120)
        N = int(np.prod(n))
        d, c = np.array(gen.rand_size(rng)), rng.normal(size=3)
        k = int(rng.integers(1, min(N, 12)+1))
        sel = rng.permutation(N)[:k]
        t = np.stack([sel % n[0], (sel//n[0]) % n[1], sel//(n[0]*n[1])], axis=1)
        ctx.case({"n": n, "d": d, "c": c, "t": t}, len(set(n)) > 1)
        idx = [int(x) for x in np.asarray(ctx.call(voxel.get_idx_linear, n, t))]
        cells = np.array(list(itertools.product(*[range(m) for m in n])))
        pts = c+(cells+0.5-np.array(n)/2)*d
        # points slightly off the centres are only removed with their own voxel (limit of one dimension: neighbours in a plane diagonal stay)
        g = gen.geometry(n, d, c, {"a": idx}, pts, data_point={"check_cloud": True, "full_cloud": False})
        out = meshlib.mesh(ctx, g)
        ctx.expect(sorted(int(x) for x in out["domain_def"]["a"]) == sorted(idx), "mesher keeps the helper indices")
        act = {tuple(x) for x in t.tolist()}
        got = np.asarray(out["pts_cloud"]).reshape(-1, 3)
        cg = np.rint((got-c)/d-0.5+np.array(n)/2).astype(int)
        left = {tuple(x) for x in cg.tolist()}
        own = {tuple(x) for x in cells.tolist()}-left
        ctx.expect(act <= own, "points at the selected cells are removed", missing=sorted(act-own)[:5])
        # removed cells are the selected ones and neighbours within one voxel in all directions
        near = {p for p in own if any(max(abs(p[q]-a[q]) for q in range(3)) <= 1 for a in act)}
        ctx.expect(own == near, "only points around the selected cells are removed", extra=sorted(own-near)[:5])
        # exact location through resampling: a voxel becomes a block at twice its tensor index
        g = gen.geometry(n, d, c, {"a": idx}, (), data_resampling={"use_resample": True, "resampling_factor": [2, 3, 1]})
        out = meshlib.mesh(ctx, g)
        m = [int(x) for x in out["n"]]
        tt = np.asarray(ctx.call(voxel.get_idx_tensor, m, [int(x) for x in out["domain_def"]["a"]]))
        blk = {tuple(int(y) for y in x//np.array([2, 3, 1])) for x in tt}
        ctx.expect(m == [2*n[0], 3*n[1], n[2]] and blk == act and len(tt) == 6*k, "resampled voxels keep their tensor position")

    ctx.ploop("small", 125, small, require=125)
    ctx.ploop("large", ctx.n(600, 8000), large)
    ctx.ploop("mesher", ctx.n(200, 2500), mesher)
