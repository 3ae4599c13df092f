"""C17: domain conflicts."""
import numpy as np
import pypeec
import gen, meshlib
from meshlib import doms

RULE = ("random overlapping domains with random rule lists (several rules, several domains per side, incomplete rules) and every combination of rule-based and random resolution; result compared with the sequential "
        "set definition; remaining overlaps must be rejected; non-trivial: some voxel is claimed twice")
ASSUMPTIONS = ["a domain is never on both sides of one rule", "random resolution of 200 or more voxels gives at least 5% to each claimant"]


def run(ctx):
    def case(rng, i):
        n = meshlib.rand_grid(rng, hi=6, vmax=120)
        k = int(rng.integers(1, 6))
        dom = meshlib.rand_domains(rng, n, k=k, overlap=float(rng.choice([0.0, 0.1, 0.3, 0.7])), empty=0.05)
        names = list(dom)
        rules = []
        full = i % 2 == 0
        if full and k > 1:
            # a complete resolution in random order
            p = [str(x) for x in rng.permutation(names)]
            for a in range(1, k):
                rules.append({"domain_resolve": [p[a]], "domain_keep": p[:a]} if rng.random() < 0.5 else {"domain_resolve": p[a:], "domain_keep": [p[a-1]]})
            if rng.random() < 0.7:
                rules = [{"domain_resolve": p[a:], "domain_keep": [p[a-1]]} for a in range(1, k)]
        elif k > 1:
            for _ in range(int(rng.integers(0, 4))):
                p = [str(x) for x in rng.permutation(names)]
                a = int(rng.integers(1, k))
                b = int(rng.integers(a, k))
                rules.append({"domain_keep": p[:a], "domain_resolve": p[a:b+1]})
        use_rules, use_rand = bool(rng.random() < 0.8), bool(rng.random() < 0.4)
        rs = {"use_reduce": bool(rng.random() < 0.2), "use_resample": False, "resampling_factor": [1, 1, 1]}
        g = gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom, data_conflict={"resolve_rules": use_rules, "resolve_random": use_rand, "conflict_rules": rules}, data_resampling=rs)
        # definition
        want = {t: set(v) for t, v in dom.items()}
        if use_rules:
            for r in rules:
                for b in r["domain_resolve"]:
                    for a in r["domain_keep"]:
                        want[b] = want[b]-want[a]
        cnt = {}
        for t, v in want.items():
            for x in v:
                cnt.setdefault(x, []).append(t)
        shared = {x for x, t in cnt.items() if len(t) > 1}
        claimed = sum(map(len, dom.values())) > len(set().union(*map(set, dom.values())))
        ctx.case(meshlib.desc(g), claimed)
        if shared and not use_rand:
            ctx.raises(pypeec.run_mesher_data, g, what="voxels shared after the resolution")
            ctx.count("left_over")
            return
        if not cnt:
            return
        out = meshlib.mesh(ctx, g)
        meshlib.check_common(ctx, out)
        if rs["use_reduce"]:
            p = g["data_voxelize"]["param"]
            got = {}
            for t, v in doms(out).items():
                cells, err = meshlib.cells(out, v, n, p["d"], p["c"], [1, 1, 1])
                got[t] = {int(x[0]+n[0]*(x[1]+n[1]*x[2])) for x in cells}
        else:
            got = {t: set(v) for t, v in doms(out).items()}
        ctx.expect(list(doms(out)) == names, "domain names and order")
        for t in names:
            ctx.expect(got.get(t, set())-shared == want[t]-shared, "voxels decided by the rules", domain=t, got=sorted(got.get(t, ())), want=sorted(want[t]), rules=rules, dom=dom)
            ctx.expect(got.get(t, set()) <= want[t], "random resolution assigns claimed voxels only", domain=t)
        ctx.expect(set().union(*got.values()) == set(cnt), "no voxel is lost")
        ctx.expect(sum(map(len, got.values())) == len(cnt), "each voxel is in one domain")
        ctx.count("random" if shared else "rules")
        # unknown names
        if k > 1:
            for side in ("domain_keep", "domain_resolve"):
                h = gen.merge(g, {})
                r = {"domain_keep": [names[0]], "domain_resolve": [names[1]]}
                r[side] = ["unknown"]
                h["data_conflict"]["resolve_rules"] = True
                h["data_conflict"]["conflict_rules"] = rules+[r]
                ctx.raises(pypeec.run_mesher_data, h, what="unknown domain in a rule")

    ctx.ploop("random", ctx.n(600, 8000), case)

    # many domains and rules
    def large(rng, i):
        n = meshlib.large_grid(rng, 200, 2e4)
        N = int(np.prod(n))
        k = int(rng.choice([8, 12, 30]))
        dom = {"t%d" % j: [int(v) for v in rng.permutation(N)[:max(1, int(N*rng.uniform(0, 0.6)))]] for j in rng.permutation(k)}
        names = list(dom)
        p = [str(x) for x in rng.permutation(names)]
        rules = [{"domain_resolve": [str(x) for x in rng.permutation(p[a:])], "domain_keep": [p[a-1]]} for a in range(1, k)]
        if i % 2:
            rules = [{"domain_resolve": [p[a]], "domain_keep": [str(x) for x in rng.permutation(p[:a])]} for a in range(1, k)]
        miss = i % 4 == 3
        if miss:
            rules = rules[:int(rng.integers(0, k-1))]
        want = {t: set(v) for t, v in dom.items()}
        for r in rules:
            for b in r["domain_resolve"]:
                for a in r["domain_keep"]:
                    want[b] = want[b]-want[a]
        left = sum(map(len, want.values())) > len(set().union(*want.values()))
        g = gen.geometry(n, gen.rand_size(rng), [0.0]*3, dom, data_conflict={"resolve_rules": True, "resolve_random": False, "conflict_rules": rules})
        ctx.case({"n": n, "k": k, "rules": len(rules), "left": left, "sum": sum(map(len, dom.values()))}, True)
        if left:
            ctx.raises(pypeec.run_mesher_data, g, what="voxels shared after the resolution (large)")
            g["data_conflict"]["resolve_random"] = True
        got = {t: set(v) for t, v in doms(meshlib.mesh(ctx, g)).items()}
        ctx.expect(list(got) == names, "domain names and order")
        if not left:
            bad = [t for t in names if got[t] != want[t]]
            ctx.expect(not bad, "voxels decided by the rules (large)", n=n, domains=bad[:4])
        else:
            ctx.expect(all(got[t] <= want[t] for t in names), "random resolution assigns claimed voxels only")
            ctx.expect(set().union(*got.values()) == set().union(*want.values()), "no voxel is lost")
        ctx.expect(sum(map(len, got.values())) == len(set().union(*got.values())), "each voxel is in one domain")
    ctx.ploop("large", ctx.n(24, 240), large)

    # order of the rules matters, later rules see the result of the earlier ones
    def order_case(rng, i):
        n = [6, 1, 1]
        dom = {"a": [0, 1, 2, 3], "b": [2, 3, 4], "c": [3, 4, 5]}
        rl = [{"domain_keep": ["a"], "domain_resolve": ["b"]}, {"domain_keep": ["b"], "domain_resolve": ["c"]}, {"domain_keep": ["c"], "domain_resolve": ["a"]}]
        p = [int(x) for x in rng.permutation(3)]
        want = {t: set(v) for t, v in dom.items()}
        for r in (rl[k] for k in p):
            want[r["domain_resolve"][0]] -= want[r["domain_keep"][0]]
        g = gen.geometry(n, [1e-3]*3, [0.0]*3, dom, data_conflict={"resolve_rules": True, "conflict_rules": [rl[k] for k in p]})
        ctx.case({"order": p})
        if sum(map(len, want.values())) > len(set().union(*want.values())):
            ctx.raises(pypeec.run_mesher_data, g, what="shared voxel left over")
            return
        ctx.expect({t: set(v) for t, v in doms(meshlib.mesh(ctx, g)).items()} == want, "rules are applied in order", order=p, want=want)
    ctx.loop("order", 6, order_case)

    def random_case(rng, i):
        n = [20, 20, 1]
        k = int(rng.integers(2, 4))
        dom = {"d%d" % j: list(range(400)) for j in range(k)}
        # three claimants or unequal sizes
        dom["big"] = list(range(100, 400)) if i % 2 else []
        g = gen.geometry(n, [1e-3]*3, [0.0]*3, dom, data_conflict={"resolve_random": True})
        got = {t: set(v) for t, v in doms(meshlib.mesh(ctx, g)).items()}
        ctx.case({"k": k})
        for t, v in dom.items():
            if v:
                ctx.expect(len(got[t]) >= 0.05*len(v), "random resolution gives voxels to every claimant", sizes={q: len(x) for q, x in got.items()})
        ctx.expect(sum(map(len, got.values())) == 400, "each voxel in one domain")
    ctx.loop("distribution", ctx.n(10, 40), random_case)
    if not ctx.only:
        for k in ("left_over", "random", "rules"):
            ctx.expect(ctx.counters.get(k, 0) > 0, "workload reaches: "+k)
