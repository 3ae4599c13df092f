"""C12: index meshes."""
import numpy as np
import pypeec
import gen, meshlib
from meshlib import mesh, doms

RULE = ("random grids and domain index arrays (disjoint, shuffled, empty domains, full grids, large sparse grids) meshed and compared voxel by voxel with the input; the same input with one index, size or type "
        "violation must be rejected; non-trivial: at least two domains or five voxels")
ASSUMPTIONS = []


def run(ctx):
    def case(rng, i):
        n = meshlib.rand_grid(rng, hi=7, vmax=250) if i % 5 else [int(x) for x in rng.integers(1, 40, 3)]
        dom = meshlib.rand_domains(rng, n) if i % 5 else {"a": [int(x) for x in rng.choice(int(np.prod(n)), min(20, int(np.prod(n))), replace=False)]}
        d, c = gen.rand_size(rng), [float(x) for x in rng.normal(size=3)]
        if i % 7 == 0:
            c = [float(x) for x in rng.integers(-3, 4, 3)]
        g = gen.geometry(n, d, c, dom)
        g["data_voxelize"]["param"]["c"] = list(c)
        ctx.case(meshlib.desc(g), len(dom) > 1 or sum(map(len, dom.values())) > 4)
        out = mesh(ctx, g)
        meshlib.check_common(ctx, out)
        ctx.expect(list(out["n"]) == n, "size is returned", got=out["n"], want=n)
        ctx.close(np.array(out["d"], float), np.array(d), 1e-14, "dimension is returned")
        ctx.close(np.array(out["c"], float), np.array(c, float), 1e-14, "centre is returned", scale=1+np.max(np.abs(c)))
        got = doms(out)
        ctx.expect(list(got) == list(dom), "domain names and order", got=list(got), want=list(dom))
        for k in dom:
            ctx.expect(got.get(k) == dom[k], "voxels of a domain", domain=k, got=got.get(k), want=dom[k])
        ctx.count("voxels", sum(map(len, dom.values())))
        # single violations
        N = int(np.prod(n))
        k = [x for x in dom if dom[x]][0]
        bad = {}
        bad["index equal to the voxel count"] = {k: dom[k]+[N]}
        bad["index far outside"] = {k: dom[k]+[N+int(rng.integers(1, 1000))]}
        bad["index outside at first position"] = {k: [N]+dom[k]}
        put = lambda v: (lambda p: dom[k][:p]+[v]+dom[k][p:])(int(rng.integers(len(dom[k])+1)))
        bad["negative index"] = {k: dom[k]+[-1]}
        bad["negative index at first position"] = {k: [-1-int(rng.integers(N))]+dom[k]}
        bad["negative index inside"] = {k: put(-1-int(rng.integers(3)))}
        bad["outside at any position"] = {k: put(N+int(rng.integers(3)))}
        bad["duplicate at any position"] = {k: put(dom[k][int(rng.integers(len(dom[k])))])}
        bad["only a negative index"] = {k: [-1]}
        bad["only an index outside"] = {k: [N]}
        bad["duplicated index in a domain"] = {k: dom[k]+[dom[k][int(rng.integers(len(dom[k])))]]}
        bad["float index"] = {k: dom[k][:-1]+[dom[k][-1]+0.5]}
        bad["text index"] = {k: dom[k][:-1]+["1"]}
        bad["scalar index"] = {k: dom[k][0]}
        bad["voxel in two domains"] = {"other": [dom[k][int(rng.integers(len(dom[k])))]]}
        for what, q in bad.items():
            h = gen.merge(g, {})
            h["data_voxelize"]["domain_index"].update(q)
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        for what, p in {"zero voxels": ("n", 0), "negative voxels": ("n", -2), "fractional voxels": ("n", 1.5), "text voxels": ("n", "2"),
                        "zero dimension": ("d", 0.0), "negative dimension": ("d", -1e-3), "text dimension": ("d", "1"), "text centre": ("c", "0"), "null centre": ("c", None)}.items():
            h = gen.merge(g, {})
            v = list(h["data_voxelize"]["param"][p[0]])
            v[int(rng.integers(3))] = p[1]
            h["data_voxelize"]["param"][p[0]] = v
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        for key in ("n", "d", "c"):
            for v in ([1, 1], [1, 1, 1, 1], 1, None):
                h = gen.merge(g, {})
                h["data_voxelize"]["param"][key] = v
                ctx.raises(pypeec.run_mesher_data, h, what="%s = %r" % (key, v))
            h = gen.merge(g, {})
            del h["data_voxelize"]["param"][key]
            ctx.raises(pypeec.run_mesher_data, h, what="missing "+key)
        h = gen.merge(g, {})
        h["data_voxelize"]["domain_index"] = {}
        ctx.raises(pypeec.run_mesher_data, h, what="no domains")

    def large(rng, i):
        n = meshlib.large_grid(rng)
        dom = meshlib.large_domains(rng, n)
        d, c = gen.rand_size(rng), [float(x) for x in rng.normal(size=3)]
        out = mesh(ctx, gen.geometry(n, d, c, dom))
        ctx.case({"n": n, "d": d, "c": c, "domains": {k: [len(v), sum(v)] for k, v in dom.items()}})
        ctx.expect([int(x) for x in out["n"]] == n, "size is returned", got=out["n"], want=n)
        got = doms(out)
        ctx.expect(list(got) == list(dom), "domain names and order")
        bad = [k for k in dom if got.get(k) != dom[k]]
        ctx.expect(not bad, "voxels of the domains (large)", n=n, domains=bad[:3])
        k = max(dom, key=lambda t: len(dom[t]))
        N = int(np.prod(n))
        for what, v in (("duplicated index", dom[k][len(dom[k])//2]), ("outside", N), ("negative", -1), ("negative", -N)):
            ctx.raises(pypeec.run_mesher_data, gen.geometry(n, d, c, {**dom, k: dom[k]+[v]}), what=what+" (large)")
            p = int(rng.integers(len(dom[k])//2)) if rng.random() < 0.5 else 0
            ctx.raises(pypeec.run_mesher_data, gen.geometry(n, d, c, {**dom, k: dom[k][:p]+[v]+dom[k][p:]}), what=what+" (large)")
    ctx.ploop("large", ctx.n(16, 160), large)

    ctx.ploop("random", ctx.n(300, 4000), case)
