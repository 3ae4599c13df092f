"""C16: resampling and reduction."""
import numpy as np
import gen, meshlib, model
from meshlib import mesh, doms, unlin_many, lin_many

RULE = ("random index geometries (asymmetric empty borders, overlapping domains resolved by rules, unequal voxel sizes) meshed with every combination of reduction and resampling (unequal factors); each domain is "
        "compared, as a set of positions on the fine grid computed from absolute coordinates, with the region given; non-trivial: reduction or resampling changes the grid")
ASSUMPTIONS = ["positions agree to 1e-6 of a fine voxel"]


def run(ctx):
    def case(rng, i):
        n = meshlib.rand_grid(rng, hi=6, vmax=100)
        dom = meshlib.rand_domains(rng, n)
        if i % 3 == 0:
            # a small block somewhere: asymmetric borders
            lo = [int(rng.integers(0, x)) for x in n]
            hi = [int(rng.integers(l, x)) for l, x in zip(lo, n)]
            blk = [v for v in range(int(np.prod(n))) if all(l <= p <= h for l, p, h in zip(lo, model.unlin(n, v), hi))]
            rng.shuffle(blk)
            blk = [int(x) for x in blk]
            dom = {"b": blk[len(blk)//2:], "a": blk[:len(blk)//2]}
        overlap = i % 4 == 3
        conflict = {}
        if overlap and len(dom) > 1:
            names = list(dom)
            dom[names[-1]] = sorted(set(dom[names[-1]]) | set(dom[names[0]][:3]))
            conflict = {"resolve_rules": True, "conflict_rules": [{"domain_resolve": [names[-1]], "domain_keep": [names[0]]}]}
        d, c = gen.rand_size(rng), [float(x) for x in rng.normal(size=3)*10**rng.uniform(-3, 0)]
        r = [int(x) for x in rng.integers(1, 4, 3)]
        if i % 5 == 0:
            # a large factor along one axis
            r = [int(x) for x in rng.integers(1, 3, 3)]
            r[int(rng.integers(3))] = int(rng.integers(4, 21))
        for red in (False, True):
            for res in (False, True):
                g = gen.geometry(n, d, c, dom, data_resampling={"use_reduce": red, "use_resample": res, "resampling_factor": r}, data_conflict=conflict)
                out = mesh(ctx, g)
                changed = res and max(r) > 1
                rr = r if res else [1, 1, 1]
                meshlib.check_common(ctx, out)
                ctx.close(np.array(out["d"], float), np.array(d)/rr, 1e-12, "voxel dimension after the options", reduce=red, resample=res)
                got = doms(out)
                ctx.expect(list(got) == list(dom), "domain names")
                used = []
                for k in dom:
                    want = set(dom[k])
                    if conflict and k == names[-1]:
                        want -= set(dom[names[0]])
                    cells, err = meshlib.cells(out, got.get(k, []), n, d, c, rr)
                    scale = max(1.0, float(np.max(np.abs(np.array(c)/np.array(d)))))
                    ctx.expect(err <= 1e-6*scale**0.5+1e-9*scale, "voxels are on the grid", err=err, reduce=red, resample=res)
                    ctx.expect(len(cells) == len(set(cells)) and set(cells) == set(meshlib.fine_cells(want, n, rr)), "occupied region of a domain is unchanged", domain=k, reduce=red, resample=res, n=n, factor=r)
                    used += [model.unlin(out["n"], v) for v in got.get(k, [])]
                    ctx.close(len(cells)*np.prod(out["d"]), len(want)*np.prod(d), 1e-9, "volume of a domain")
                used = np.array(used)
                if red and not conflict:
                    lim = np.array(rr)
                    ctx.expect(list(used.min(axis=0)) == [0, 0, 0] and list(used.max(axis=0)) == [x-1 for x in out["n"]], "reduction leaves no empty border", n=out["n"])
                    ctx.expect(all(a % b == 0 for a, b in zip(out["n"], rr)), "size is a multiple of the factor")
                    changed = changed or list(out["n"]) != [a*b for a, b in zip(n, rr)]
                if not red:
                    ctx.expect(list(out["n"]) == [a*b for a, b in zip(n, rr)], "grid size", got=out["n"], n=n, r=rr)
                    ctx.close(np.array(out["c"], float), np.array(c), 1e-12, "centre is unchanged without reduction", scale=max(np.abs(c)))
                if not red and not res and not conflict:
                    ctx.expect(got == dom, "disabled options change nothing")
                ctx.case({**meshlib.desc(g)}, changed)
                ctx.count("reduce=%d resample=%d" % (red, res))

    def large(rng, i):
        n = meshlib.large_grid(rng, 1e3, 2e4)
        dom = meshlib.large_domains(rng, n)
        d, c = np.array(gen.rand_size(rng)), rng.normal(size=3)*10**rng.uniform(-3, 0)
        r = np.array([int(x) for x in rng.integers(1, 6, 3)])
        while np.prod(r)*np.prod(n) > 3e5:
            r[int(np.argmax(r))] -= 1
        red, res = bool(i % 2), bool(i % 4 < 3)
        out = mesh(ctx, gen.geometry(n, d, c, dom, data_resampling={"use_reduce": red, "use_resample": res, "resampling_factor": [int(x) for x in r]}))
        ctx.case({"n": n, "r": r, "reduce": red, "resample": res, "domains": {k: len(v) for k, v in dom.items()}})
        rr = r if res else np.ones(3, int)
        no, do, co = np.array(out["n"]), np.array(out["d"], float), np.array(out["c"], float)
        ctx.close(do, d/rr, 1e-12, "voxel dimension after the options (large)")
        lo = (co-no*do/2-(c-np.array(n)*d/2))/do
        k = np.rint(lo).astype(int)
        ctx.expect(np.max(np.abs(lo-k)) < 1e-6*max(1.0, float(np.max(np.abs(c/d))))**0.5+1e-9*float(np.max(np.abs(c/d))), "grid offset is a whole number of voxels", got=lo)
        got = doms(out)
        ctx.expect(list(got) == list(dom), "domain names")
        sub = np.stack(np.meshgrid(*[np.arange(x) for x in rr], indexing="ij"), axis=-1).reshape(-1, 3)
        nf = np.array(n)*rr
        for t in dom:
            want = lin_many(nf, (unlin_many(n, dom[t])[:, None, :]*rr+sub[None]).reshape(-1, 3))
            have = unlin_many(no, got.get(t, []))+k
            ok = len(have) == len(want) and bool(np.all((have >= 0) & (have < nf)))
            ctx.expect(ok and np.array_equal(np.sort(lin_many(nf, have)), np.sort(want)), "occupied region of a domain is unchanged (large)", domain=t, n=n, factor=r)
        if red:
            p = unlin_many(no, [v for x in got.values() for v in x])
            ctx.expect(list(p.min(axis=0)) == [0, 0, 0] and list(p.max(axis=0)) == [x-1 for x in no], "reduction leaves no empty border (large)", n=out["n"])
    ctx.ploop("large", ctx.n(16, 160), large)

    ctx.ploop("random", ctx.n(240, 3000), case)
