"""C11: connected components and integrity rules."""
import numpy as np
import pypeec
import gen, meshlib
from meshlib import mesh, doms

RULE = ("random voxel patterns (sparse to full, with diagonal-only contacts, thin grids) with random connected/adjacent rules; components compared with an independent flood fill, acceptance of every rule "
        "compared with the decision of the definition; exhaustive patterns on tiny grids; non-trivial: at least two components or one rule decided")
ASSUMPTIONS = ["rules whose groups are all empty are not judged"]


def decide(n, dom, kind, rule):
    """True/False/None (not judged)."""
    groups = [sorted({v for t in grp for v in dom[t]}) for grp in rule["domain_group"]]
    groups = [g for g in groups if g]
    if not groups:
        return None
    if kind == "domain_connected":
        cs = gen.components(n, [v for x in dom.values() for v in x])
        cnt = [sum(1 for g in groups if set(g) & set(c)) for c in cs]
    else:
        def touch(a, b):
            return bool(gen.far_from(n, a) & set(b))
        cnt = [sum(1 for h in groups if touch(g, h)) for g in groups]
    if rule["connected"]:
        return max(cnt) == len(groups)
    return max(cnt) <= 1


def rand_rule(rng, dom):
    names = list(dom)
    k = int(rng.integers(1, 4))
    grp = [[str(x) for x in rng.choice(names, int(rng.integers(1, 3)))] for _ in range(k)]
    if rng.random() < 0.6 and len(names) >= 2:
        p = [str(x) for x in rng.permutation(names)]
        k = int(rng.integers(1, len(p)+1))
        grp = [list(map(str, x)) for x in np.array_split(np.array(p), k)]
    return {"domain_group": grp, "connected": bool(rng.integers(2))}


def judge(ctx, n, d, dom, conn, adj):
    g = gen.geometry(n, d, [0.0]*3, dom, data_integrity={"domain_connected": conn, "domain_adjacent": adj})
    res = [decide(n, dom, "domain_connected", r) for r in conn.values()]+[decide(n, dom, "domain_adjacent", r) for r in adj.values()]
    if any(r is None for r in res):
        return
    ok = all(res)
    try:
        out = pypeec.run_mesher_data(g)["data_geom"]
        acc = True
    except Exception:
        acc = False
    ctx.expect(acc == ok, "integrity rules: %s expected" % ("acceptance" if ok else "rejection"), n=n, dom=dom, connected=conn, adjacent=adj, decided=res)
    ctx.count("accepted" if ok else "rejected")
    for r in list(conn.values())+list(adj.values()):
        ctx.count("rules")


def run(ctx):
    def components(ctx, n, dom, out):
        want = meshlib.comps(n, [v for x in dom.values() for v in x])
        gd = [[int(v) for v in x] for x in out["graph_def"]]
        ctx.expect(sum(map(len, gd)) == sum(map(len, want)), "components hold every non-empty voxel once", got=gd)
        ctx.expect({frozenset(x) for x in gd} == want, "components are the maximal face-connected sets", n=n, dom=dom, got=gd)
        ctx.expect(out["voxel_status"]["n_graph"] == len(want), "component count")
        return len(want)

    def case(rng, i):
        n = meshlib.rand_grid(rng, hi=6) if i % 3 else [int(x) for x in rng.permutation([1, int(rng.integers(2, 5)), int(rng.integers(2, 12))])]
        dom = meshlib.rand_domains(rng, n)
        if i % 4 == 0:
            # blobs: connected domains
            free = set(range(int(np.prod(n))))
            dom = {}
            for k in range(int(rng.integers(1, 5))):
                b = gen.blob(rng, n, int(rng.integers(1, 8)), free, 0.5)
                free -= set(b)
                if b:
                    dom["d%d" % k] = b
        d = gen.rand_size(rng)
        out = mesh(ctx, gen.geometry(n, d, [0.0]*3, dom))
        nc = components(ctx, n, dom, out)
        ctx.case({"n": n, "dom": dom}, nc > 1 or len(dom) > 1)
        for _ in range(6):
            r = rand_rule(rng, dom)
            if rng.random() < 0.5:
                judge(ctx, n, d, dom, {"x": r}, {})
            else:
                judge(ctx, n, d, dom, {}, {"x": r})
        # several rules at once
        conn = {"r%d" % k: rand_rule(rng, dom) for k in range(int(rng.integers(0, 3)))}
        adj = {"r%d" % k: rand_rule(rng, dom) for k in range(int(rng.integers(0, 3)))}
        judge(ctx, n, d, dom, conn, adj)
        # all satisfied rules together are accepted
        pool = [rand_rule(rng, dom) for _ in range(8)]
        judge(ctx, n, d, dom, {"r%d" % k: r for k, r in enumerate(pool) if decide(n, dom, "domain_connected", r)},
              {"r%d" % k: r for k, r in enumerate(pool) if decide(n, dom, "domain_adjacent", r)})
        for kind in ("domain_connected", "domain_adjacent"):
            for c in (True, False):
                g = gen.geometry(n, d, [0.0]*3, dom, data_integrity={kind: {"x": {"domain_group": [[list(dom)[0]], ["unknown"]], "connected": c}}})
                ctx.raises(pypeec.run_mesher_data, g, what="unknown domain in %s" % kind)

    ctx.ploop("random", ctx.n(300, 4000), case)

    # components after resampling, reduction and conflict resolution
    def option_case(rng, i):
        n = meshlib.rand_grid(rng, hi=4, vmax=40)
        dom = meshlib.rand_domains(rng, n, overlap=0.2)
        names = list(dom)
        rules = [{"domain_resolve": [names[k]], "domain_keep": names[:k]} for k in range(1, len(names))]
        g = gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom, data_conflict={"resolve_rules": True, "conflict_rules": rules},
                         data_resampling={"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [int(x) for x in rng.integers(1, 4, 3)]})
        out = mesh(ctx, g)
        ctx.case(meshlib.desc(g))
        components(ctx, out["n"], doms(out), out)
    ctx.ploop("options", ctx.n(100, 1000), option_case)

    # large grids: thousands of components, hundreds of domains
    def large(rng, i):
        n = meshlib.large_grid(rng)
        dom = meshlib.large_domains(rng, n)
        names = list(dom)
        vox = np.array([v for x in dom.values() for v in x])
        lab, nc = meshlib.label(n, vox)
        out = mesh(ctx, gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom))
        gd = [np.asarray(x).ravel() for x in out["graph_def"]]
        ctx.case({"n": n, "domains": len(dom), "used": len(vox), "components": nc, "sum": int(vox.sum())}, nc > 1)
        ctx.expect(len(gd) == nc and out["voxel_status"]["n_graph"] == nc, "component count", got=len(gd), want=nc)
        allv = np.concatenate(gd)
        ctx.expect(len(allv) == len(vox) and np.array_equal(np.sort(allv), np.sort(vox)), "components hold every non-empty voxel once")
        pos = np.full(int(np.prod(n)), -1); pos[vox] = lab
        ctx.expect(all(len(set(pos[x].tolist())) == 1 for x in gd), "components are the maximal face-connected sets", n=n)
        ctx.count("large_components", nc)
        # rules over many groups
        own = {t: set(lab[a:b].tolist()) for t, a, b in zip(names, np.cumsum([0]+[len(dom[t]) for t in names[:-1]]), np.cumsum([len(dom[t]) for t in names]))}
        full = [t for t in names if dom[t]]
        for _ in range(2):
            p = [str(x) for x in rng.permutation(full)]
            grp = [list(map(str, x)) for x in np.array_split(np.array(p), int(rng.integers(1, len(p)+1)))]
            grp = grp[:int(rng.integers(1, len(grp)+1))]
            cnt = np.zeros(nc+1, int)
            for g in grp:
                cnt[list(set().union(*[own[t] for t in g]))] += 1
            for c in (True, False):
                ok = bool(cnt.max() == len(grp)) if c else bool(cnt.max() <= 1)
                g = gen.geometry(n, [1e-3]*3, [0.0]*3, dom, data_integrity={"domain_connected": {"r": {"domain_group": grp, "connected": c}}, "domain_adjacent": {}})
                try:
                    pypeec.run_mesher_data(g)
                    acc = True
                except Exception:
                    acc = False
                ctx.expect(acc == ok, "integrity rules (large): %s expected" % ("acceptance" if ok else "rejection"), n=n, groups=len(grp), connected=c)
                ctx.count("large_"+("accepted" if ok else "rejected"))
        # adjacency of many groups, each a set of whole domains
        p = [str(x) for x in rng.permutation(full)]
        grp = [list(map(str, x)) for x in np.array_split(np.array(p), int(rng.integers(1, len(p)+1)))][:int(rng.integers(1, 60))]
        img = np.full(int(np.prod(n)), -1)
        for k, g in enumerate(grp):
            img[[v for t in g for v in dom[t]]] = k
        img = img.reshape(n, order="F")
        T = np.eye(len(grp), dtype=int)
        for ax in range(3):
            a, b = np.moveaxis(img, ax, 0)[1:].ravel(), np.moveaxis(img, ax, 0)[:-1].ravel()
            q = (a >= 0) & (b >= 0)
            T[a[q], b[q]] = 1
            T[b[q], a[q]] = 1
        for c in (True, False):
            # a group touches another one (a group counts for itself)
            cnt = T.sum(axis=1)
            ok = bool(cnt.max() == len(grp)) if c else bool(cnt.max() <= 1)
            g = gen.geometry(n, [1e-3]*3, [0.0]*3, dom, data_integrity={"domain_connected": {}, "domain_adjacent": {"r": {"domain_group": grp, "connected": c}}})
            try:
                pypeec.run_mesher_data(g)
                acc = True
            except Exception:
                acc = False
            ctx.expect(acc == ok, "adjacency rules (large): %s expected" % ("acceptance" if ok else "rejection"), n=n, groups=len(grp), connected=c)
    ctx.ploop("large", ctx.n(16, 160), large)

    # every pattern of two domains on tiny grids, with every basic rule
    grids = [[2, 2, 1], [1, 2, 2], [2, 1, 2], [3, 1, 1], [1, 3, 1], [1, 1, 4], [5, 1, 1]]
    if ctx.thorough():
        grids += [[2, 3, 1], [1, 3, 2], [3, 1, 2]]

    def tiny(rng, i):
        n = grids[i]
        N = int(np.prod(n))
        for code in range(1, 3**N):
            t = [(code//3**k) % 3 for k in range(N)]
            dom = {"a": [k for k in range(N) if t[k] == 1], "b": [k for k in range(N) if t[k] == 2]}
            out = mesh(ctx, gen.geometry(n, [1.0, 1.0, 1.0], [0.0]*3, dom))
            components(ctx, n, dom, out)
            ctx.case({"n": n, "code": code})
            ctx.count("exhaustive")
            for c in (True, False):
                judge(ctx, n, [1.0]*3, dom, {"r": {"domain_group": [["a"], ["b"]], "connected": c}}, {})
                judge(ctx, n, [1.0]*3, dom, {}, {"r": {"domain_group": [["a"], ["b"]], "connected": c}})
    ctx.ploop("tiny", len(grids), tiny)
    if not ctx.only:
        for k in ("accepted", "rejected"):
            ctx.expect(ctx.counters.get(k, 0) > 50, "workload reaches: "+k)
