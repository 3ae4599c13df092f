"""Shared helpers of the mesher checks."""
import numpy as np
import pypeec
import gen, model


def rand_grid(rng, lo=1, hi=6, vmax=160):
    while True:
        n = [int(x) for x in rng.integers(lo, hi+1, 3)]
        if 2 <= np.prod(n) <= vmax:
            return n


def rand_domains(rng, n, k=None, overlap=0.0, fill=None, empty=0.1):
    """Random domains; without overlap they are disjoint."""
    N = int(np.prod(n))
    k = k or int(rng.integers(1, 6))
    fill = fill if fill is not None else float(rng.choice([0.1, 0.4, 0.8, 1.0]))
    pool = [int(x) for x in rng.permutation(N)[:max(1, int(round(N*fill)))]]
    dom = {}
    names = ["dom_%s" % c for c in rng.permutation(list("abcdefghij"))[:k]]
    cuts = np.sort(rng.integers(0, len(pool)+1, k-1)) if k > 1 else []
    for name, part in zip(names, np.split(np.array(pool, dtype=int), cuts)):
        idx = [int(x) for x in part]
        if rng.random() < empty:
            idx = []
        dom[name] = idx
    if overlap:
        for a in names:
            extra = [v for v in pool if v not in dom[a] and rng.random() < overlap]
            dom[a] = dom[a]+extra
    if not any(dom.values()):
        dom[names[0]] = pool[:1]
    return dom


def desc(g):
    v = g["data_voxelize"]
    return {"param": v["param"], "domains": v.get("domain_index"), "data_point": g["data_point"], "resampling": g["data_resampling"],
            "conflict": g["data_conflict"], "integrity": g["data_integrity"]}


def mesh(ctx, g):
    return ctx.call(pypeec.run_mesher_data, g)["data_geom"]


def doms(out):
    return {k: [int(x) for x in np.asarray(v).ravel()] for k, v in out["domain_def"].items()}


def cells(out, dom, n0, d0, c0, r):
    """Integer positions of the voxels of a domain on the fine grid (r sub-voxels of the grid n0, d0, c0), from their absolute position."""
    n, d, c = np.array(out["n"]), np.array(out["d"], float), np.array(out["c"], float)
    fine = np.array(d0, float)/np.array(r)
    org = np.array(c0, float)-np.array(n0)*np.array(d0, float)/2
    pos = []
    for v in dom:
        q = (model.centre(n, d, c, v)-org)/fine-0.5
        pos.append(q)
    pos = np.array(pos).reshape(-1, 3)
    k = np.rint(pos)
    err = float(np.max(np.abs(pos-k))) if len(pos) else 0.0
    return [tuple(int(x) for x in p) for p in k], err


def fine_cells(idx, n0, r):
    out = []
    for v in idx:
        p = model.unlin(n0, v)
        for a in range(r[0]):
            for b in range(r[1]):
                for c in range(r[2]):
                    out.append((int(p[0]*r[0]+a), int(p[1]*r[1]+b), int(p[2]*r[2]+c)))
    return out


def check_common(ctx, out, tol=1e-12):
    """Facts that hold for every mesh."""
    n, d, c, s = out["n"], out["d"], out["c"], out["s"]
    ctx.expect(len(n) == 3 and all(int(x) == x and x > 0 for x in n), "grid size is positive", n=n)
    ctx.close(np.array(s, float), np.array(n)*np.array(d, float), tol, "extent is count times dimension")
    allv = [v for x in doms(out).values() for v in x]
    ctx.expect(len(set(allv)) == len(allv), "voxels belong to one domain")
    ctx.expect(all(0 <= v < np.prod(n) for v in allv), "voxels are inside the grid")
    return allv


def comps(n, vox):
    return {frozenset(x) for x in gen.components(n, vox)}


# ------------------------------------------------------------------ large structures (vectorised oracles)
def unlin_many(n, idx):
    idx = np.asarray(idx, dtype=np.int64).ravel()
    return np.stack([idx % n[0], (idx//n[0]) % n[1], idx//(n[0]*n[1])], axis=1)


def lin_many(n, pos):
    pos = np.asarray(pos, dtype=np.int64).reshape(-1, 3)
    return pos[:, 0]+n[0]*(pos[:, 1]+n[1]*pos[:, 2])


def large_grid(rng, lo=5e3, hi=1.2e5):
    while True:
        a = np.exp(rng.normal(size=3)*rng.choice([0.1, 1.0]))
        a *= (np.exp(rng.uniform(np.log(lo), np.log(hi)))/np.prod(a))**(1/3)
        n = [max(1, int(round(x))) for x in a]
        if lo/2 <= np.prod(n) <= 1.5*hi:
            return n


def large_domains(rng, n, used=None):
    """Many domains on a large grid: scattered voxels (thousands of components), porous blocks or full blocks."""
    N = int(np.prod(n))
    fill = float(rng.choice([0.02, 0.2, 0.5, 0.9, 1.0]))
    idx = np.arange(N)
    if rng.random() < 0.5:
        # a box with empty borders
        p = unlin_many(n, idx)
        lo = np.array([int(rng.integers(0, (x+2)//3)) for x in n])
        hi = np.array([x-int(rng.integers(0, (x+2)//3)) for x in n])
        idx = idx[np.all((p >= lo) & (p < hi), axis=1)]
    idx = idx[rng.random(len(idx)) < fill]
    if not len(idx):
        idx = np.array([N//2])
    k = int(rng.choice([1, 2, 12, 40, 300]))
    kind = int(rng.integers(3))
    if kind == 0:
        lab = rng.integers(0, k, len(idx))
    elif kind == 1:
        lab = np.minimum(k-1, np.arange(len(idx))*k//len(idx))
    else:
        ax = int(rng.integers(3))
        lab = unlin_many(n, idx)[:, ax] % k
    if rng.random() < 0.5:
        q = rng.permutation(len(idx))
        idx, lab = idx[q], lab[q]
    dom = {"d%d" % t: [int(v) for v in idx[lab == t]] for t in rng.permutation(k)}
    return dom


def label(n, vox):
    """Component number of every voxel of a list (six-connectivity, image labelling)."""
    import scipy.ndimage as ndi
    vox = np.asarray(vox, dtype=np.int64)
    m = np.zeros(int(np.prod(n)), bool)
    m[vox] = True
    lab, k = ndi.label(m.reshape(n, order="F"))
    return lab.ravel(order="F")[vox], k
