"""C14: shape meshes."""
import numpy as np
import pypeec
import shapely
import gen, meshlib, model
from meshlib import doms

RULE = ("random shape lists (pads, multi-segment traces, polygons with holes and buffers, added and subtracted, on one or several layers, several domains) with given or computed bounds; every voxel centre is classified "
        "with own distance computations in three-valued logic (inside, outside, within tolerance of a boundary) and compared; the reference surface of disjoint polygons (plain, simplified with bumps below the tolerance, snapped with collapsing slivers) is compared by corners and area; non-trivial: inside and outside voxels decided in at least one domain")
ASSUMPTIONS = ["voxel centres closer to a boundary than the tolerance (arc discretisation of 1%, simplification and construction grid) are not judged",
               "shapes on layers that are not in the stack contribute nothing"]


def seg_dist(p, a, b):
    ab = b-a
    L = float(ab@ab)
    t = np.clip(((p-a)@ab)/L, 0, 1) if L > 0 else np.zeros(len(p))
    return np.linalg.norm(p-(a+t[:, None]*ab), axis=1)


def ring_dist(p, ring):
    return np.min([seg_dist(p, ring[k], ring[(k+1) % len(ring)]) for k in range(len(ring))], axis=0)


def ring_in(p, ring):
    """Even-odd rule."""
    ins = np.zeros(len(p), bool)
    for k in range(len(ring)):
        (x0, y0), (x1, y1) = ring[k], ring[(k+1) % len(ring)]
        cond = (y0 > p[:, 1]) != (y1 > p[:, 1])
        with np.errstate(divide="ignore", invalid="ignore"):
            xc = x0+(p[:, 1]-y0)*(x1-x0)/(y1-y0)
        ins ^= cond & (p[:, 0] < xc)
    return ins


def sdist(shape, p):
    """Signed distance to the shape (negative inside) and the arc radius involved."""
    t, q = shape["shape_type"], shape["shape_data"]
    if t == "pad":
        c = np.array(q["coord"], float)
        return np.min([np.linalg.norm(p-x, axis=1) for x in c], axis=0)-q["diameter"]/2, q["diameter"]/2
    if t == "trace":
        c = np.array(q["coord"], float)
        return np.min([seg_dist(p, c[k], c[k+1]) for k in range(len(c)-1)], axis=0)-q["width"]/2, q["width"]/2
    shell = np.array(q["coord_shell"], float)
    holes = [np.array(h, float) for h in q["coord_holes"]]
    ins = ring_in(p, shell)
    dist = ring_dist(p, shell)
    for h in holes:
        ins &= ~ring_in(p, h)
        dist = np.minimum(dist, ring_dist(p, h))
    s = np.where(ins, -dist, dist)
    b = q["buffer"] or 0.0
    return s-b, b


def classify(shapes, layer, p, tol):
    """1 inside, 0 outside, nan undecided."""
    def union(lst):
        out = np.zeros(len(p))
        for sh in lst:
            s, r = sdist(sh, p)
            e = tol+0.01*r
            x = np.where(s < -e, 1.0, np.where(s > e, 0.0, np.nan))
            out = np.where((out == 1) | (x == 1), 1.0, np.where(np.isnan(out) | np.isnan(x), np.nan, 0.0))
        return out
    on = [s for s in shapes if layer in s["shape_layer"]]
    a = union([s for s in on if s["shape_operation"] == "add"])
    b = union([s for s in on if s["shape_operation"] == "sub"])
    return np.where((a == 0) | (b == 1), 0.0, np.where(np.isnan(a) | np.isnan(b), np.nan, 1.0))


def rand_ring(rng, c, r, k):
    """Star-shaped polygon."""
    while True:
        ang = np.sort(rng.uniform(0, 2*np.pi, k))
        if np.max(np.diff(np.append(ang, ang[0]+2*np.pi))) < 0.9*np.pi:
            break
    if rng.random() < 0.5:
        ang = ang[::-1]
    rad = r*rng.uniform(0.5, 1.0, k)
    return [[float(c[0]+x*np.cos(a)), float(c[1]+x*np.sin(a))] for x, a in zip(rad, ang)]


# layer names which are parts of other names or differ by their case
ALIKE = ["l", "L", "l1", "L1", "l10", "l11", "1l", "l1 ", "l_1", "l1_l", "ll", "LL", "l100", "al1"]


def rand_shape(rng, L, layers, op, rich=False):
    t = str(rng.choice(["pad", "trace", "polygon"]))
    c = rng.uniform(-1, 1, 2)*L
    if t == "pad":
        q = {"diameter": float(L*rng.uniform(0.3, 1.2)), "coord": [[float(x) for x in c+rng.normal(size=2)*0.6*L*(k > 0)] for k in range(int(rng.integers(1, 40 if rich else 4)))]}
    elif t == "trace":
        q = {"width": float(L*rng.uniform(0.15, 0.6)), "coord": [[float(x) for x in rng.uniform(-1.2, 1.2, 2)*L] for _ in range(int(rng.integers(2, 30 if rich else 5)))]}
        if rng.random() < 0.3:
            # an arc drawn with many short segments
            m, r, a = int(rng.integers(6, 30)), L*rng.uniform(0.3, 1.5), rng.uniform(0, 2*np.pi)+np.linspace(0, rng.uniform(0.5, 5.5), 30)
            q = {"width": float(L*rng.uniform(0.3, 0.9)), "coord": [[float(c[0]+r*np.cos(x)), float(c[1]+r*np.sin(x))] for x in a[:m]]}
    else:
        r = L*rng.uniform(0.5, 1.2)
        shell = rand_ring(rng, c, r, int(rng.integers(3, 8)))
        if rng.random() < 0.3:
            h = np.abs(rng.uniform(0.3, 1, 2))*r
            shell = [[float(c[0]+a*h[0]), float(c[1]+b*h[1])] for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        q = {"buffer": None if rng.random() < 0.4 else (0.0 if rng.random() < 0.3 else float(L*rng.uniform(0.02, 0.3))), "coord_shell": shell, "coord_holes": []}
        if rng.random() < 0.5:
            # a hole strictly inside the shell
            s, _ = sdist({"shape_type": "polygon", "shape_data": q}, c[None])
            s = float(s[0])+(q["buffer"] or 0.0)
            if s < 0:
                m = int(rng.integers(1, 4))
                if m == 1:
                    q["coord_holes"].append(rand_ring(rng, c, -s*0.9, int(rng.integers(3, 6))))
                else:
                    # several disjoint holes around the centre
                    rad, a0 = -s*0.45, rng.uniform(0, 2*np.pi)
                    for j in range(m):
                        a = a0+2*np.pi*j/m
                        q["coord_holes"].append(rand_ring(rng, c+rad*np.array([np.cos(a), np.sin(a)]), 0.85*rad, int(rng.integers(4, 7))))
    k = int(rng.integers(1, len(layers)+1))
    return {"shape_layer": [str(x) for x in rng.permutation(layers)[:k]], "shape_operation": op, "shape_type": t, "shape_data": q}


def bounds(sh):
    t, q = sh["shape_type"], sh["shape_data"]
    c = np.array(q["coord_shell"] if t == "polygon" else q["coord"], float)
    r = {"pad": lambda: q["diameter"]/2, "trace": lambda: q["width"]/2, "polygon": lambda: q["buffer"] or 0.0}[t]()
    return c.min(axis=0)-r, c.max(axis=0)+r


def geometry(param, stack, shapes, **kw):
    return gen.merge({
        "mesh_type": "shape", "data_voxelize": {"param": param, "layer_stack": stack, "geometry_shape": shapes},
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}}}, kw)


def surface(ref):
    """Vertices and triangles of a PyVista face array."""
    f, p = np.asarray(ref["faces"]), np.asarray(ref["points"], float)
    tri, k = [], 0
    while k < len(f):
        q = f[k+1:k+1+f[k]]
        tri += [(q[0], q[j], q[j+1]) for j in range(1, len(q)-1)]
        k += 1+f[k]
    return p, np.array(tri, int).reshape(-1, 3)


def ring_size(ring):
    r = np.array(ring, float)
    q = np.roll(r, -1, axis=0)
    return abs(np.sum(r[:, 0]*q[:, 1]-r[:, 1]*q[:, 0]))/2, float(np.sum(np.linalg.norm(q-r, axis=1)))


def bumps(rng, ring, amp, free=()):
    """Add a vertex close to the middle of each edge, on the side given by a random sign."""
    out = []
    r = np.array(ring, float)
    for k, (a, b) in enumerate(zip(r, np.roll(r, -1, axis=0))):
        if k in free:
            out.append(a)
            continue
        t = (b-a)/np.linalg.norm(b-a)
        out += [a, (a+b)/2+amp*rng.choice([-1, 1])*np.array([-t[1], t[0]])]
    return [[float(x) for x in v] for v in out]


def above(rng, ring, amp):
    """Add a corner of the given height in the middle of the longest edge."""
    r = np.array(ring, float)
    e = np.roll(r, -1, axis=0)-r
    k = int(np.argmax(np.linalg.norm(e, axis=1)))
    t = e[k]/np.linalg.norm(e[k])
    mid = r[k]+e[k]/2+amp*rng.choice([-1, 1])*np.array([-t[1], t[0]])
    r = np.insert(r, k+1, mid, axis=0)
    return [[float(x) for x in v] for v in r], (k, k+1)


def sharp(ring):
    """Smallest distance between a corner and the line through its neighbours."""
    r = np.array(ring, float)
    a, b = np.roll(r, 1, axis=0), np.roll(r, -1, axis=0)
    area = (r-a)[:, 0]*(b-a)[:, 1]-(r-a)[:, 1]*(b-a)[:, 0]
    return float(np.min(np.abs(area)/np.maximum(np.linalg.norm(b-a, axis=1), 1e-300)))


def slivers(rng, ring, ctr, grid, L):
    """Add thin outward spikes at corners, they collapse on the construction grid."""
    out, done = [], 0
    q = {"shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": ring, "coord_holes": []}}
    for v, w in zip(ring, ring[1:]+ring[:1]):
        d = (np.array(v)-ctr)/np.linalg.norm(np.array(v)-ctr)
        tip = np.round((np.array(v)+rng.uniform(0.2, 0.4)*L*d)/grid)*grid
        out.append(v)
        if rng.random() < 0.5 and sdist(q, tip[None])[0][0] > 3*grid:
            out += [[float(x) for x in tip], [float(x) for x in np.array(v)+0.1*grid*(np.array(w)-np.array(v))/np.linalg.norm(np.array(w)-np.array(v))]]
            done += 1
    return (out, done) if shapely.Polygon(out).is_valid else (ring, 0)


def run(ctx):
    def reference(rng, i):
        """The reference surface is the boundary of the extruded shapes."""
        L = float(10**rng.uniform(-3, 1))
        nl = int(rng.integers(1, 5))
        layers = ["l%d" % x for x in rng.permutation(nl)]
        if i % 3 == 1:
            layers = [str(x) for x in rng.permutation(ALIKE)[:nl]]
        stack = [{"n_layer": int(rng.integers(1, 4)), "tag_layer": t} for t in layers]
        dz = float(L*rng.uniform(0.1, 1.0))
        cz = None if rng.random() < 0.3 else float(rng.normal()*L)
        zs = np.append(0, np.cumsum([s["n_layer"] for s in stack]))
        zs = (zs-zs[-1]/2)*dz+(cz or 0.0)
        mode = ("plain", "simplify", "construct")[i % 3]
        # disjoint polygons, one per cell of a coarse grid
        nd = int(rng.integers(1, 5))
        shapes = {"dom_%d" % k: [] for k in range(nd)}
        area, verts, extra = 0.0, [], 0
        grid = 0.05*L
        off = rng.normal(size=2)*L
        for k in range(int(rng.integers(nd, 9))):
            ctr = off+3*L*np.array([k % 3, k//3])
            ring = [[float(ctr[0]+L*x), float(ctr[1]+L*y)] for x, y in ((-1, -1), (1, -1), (0.8, 0.9), (-0.7, 1))] if rng.random() < 0.4 else rand_ring(rng, ctr, 1.2*L, int(rng.integers(3, 8)))
            if mode == "construct":
                ring = [[float(round(x/grid)*grid) for x in v] for v in ring]
            if len({tuple(v) for v in ring}) < len(ring) or (mode != "plain" and sharp(ring) < 0.06*L):
                continue
            q = {"shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": ring, "coord_holes": []}}
            s = float(sdist(q, ctr[None])[0][0])
            rings = [ring]
            sub = None
            if s < -0.1*L and mode != "construct" and rng.random() < 0.5:
                hole = rand_ring(rng, ctr, -s*0.9, int(rng.integers(3, 6)))
                rings.append(hole)
                if rng.random() < 0.5:
                    q["shape_data"]["coord_holes"] = [hole]
                else:
                    sub = hole
            edge = min(np.linalg.norm(np.roll(np.array(r), -1, axis=0)-np.array(r), axis=1).min() for r in rings)
            if mode == "simplify" and (len(rings) > 1 or edge < 0.2*L):
                continue
            on = [str(x) for x in rng.permutation(layers)[:int(rng.integers(1, nl+1))]]
            lst = shapes["dom_%d" % (k % nd)]
            shell, thin = ring, 0
            if mode == "simplify":
                # a corner just above the tolerance has to stay
                free = ()
                if rng.random() < 0.7:
                    ring, free = above(rng, ring, 8e-3*L*rng.uniform(1.3, 2.0))
                    rings = [ring]
                shell = bumps(rng, ring, 2e-3*L, free)
            elif mode == "construct" and rng.random() < 0.5:
                shell, thin = slivers(rng, ring, ctr, grid, L)
                ctx.count("slivers", thin)
            lst.append({"shape_layer": on, "shape_operation": "add", **q, "shape_data": {**q["shape_data"], "coord_shell": shell}})
            if sub:
                lst.append({"shape_layer": on, "shape_operation": "sub", "shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": sub, "coord_holes": []}})
            a = ring_size(ring)[0]-sum(ring_size(r)[0] for r in rings[1:])
            per = sum(ring_size(r)[1] for r in rings)
            for t in on:
                j = layers.index(t)
                area += 2*a+per*(zs[j+1]-zs[j])
                verts += [(*v, z) for r in rings for v in r for z in (zs[j], zs[j+1])]
                extra += 2
        shapes = {t: v for t, v in shapes.items() if v}
        if not shapes:
            return
        param = {"dx": L/4, "dy": L/4, "dz": dz, "cz": cz, "simplify": 8e-3*L if mode == "simplify" else None, "construct": grid if mode == "construct" else None, "xy_min": None, "xy_max": None}
        ref = ctx.call(pypeec.run_mesher_data, geometry(param, stack, shapes))["data_geom"]["reference"]
        p, tri = surface(ref)
        verts = np.array(verts)
        size = np.abs(verts).max()+L
        dist = lambda a, b: np.array([np.abs(b-x).max(axis=1).min() for x in a])
        ctx.expect(len(tri) > 0 and tri.min() >= 0 and tri.max() < len(p) and np.all(np.isfinite(p)), "faces refer to the points")
        tol = 1e-5*size
        ctx.expect(np.all(dist(verts, p) <= tol), "corner of an extruded shape is missing in the reference", mode=mode)
        far = dist(p, verts) > tol
        if mode == "simplify":
            # the start of a ring cannot be removed
            ctx.expect(len(np.unique(np.round(p[far]/tol), axis=0)) <= extra, "vertices within the tolerance are removed", got=int(far.sum()))
        else:
            ctx.expect(not far.any(), "reference has a point that is no corner of an extruded shape", mode=mode, points=p[far][:3])
        got = 0.5*np.linalg.norm(np.cross(p[tri[:, 1]]-p[tri[:, 0]], p[tri[:, 2]]-p[tri[:, 0]]), axis=1).sum()
        ctx.close(got, area, 1e-4 if mode != "simplify" else 2e-2, "area of the reference surface", mode=mode)
        ctx.count("reference_"+mode)
        ctx.case({"stack": stack, "shapes": shapes, "param": param}, True)

    def case(rng, i):
        L = float(10**rng.uniform(-4, 0))
        # sometimes many layers, domains, shapes and points on a fine grid, away from the origin
        rich = i % 7 == 3
        layers = ["l%s" % x for x in rng.permutation(list("abcdefghijklmnop") if rich else list("abcd"))[:int(rng.integers(1, 14 if rich else 4))]]
        if i % 3 == 1:
            layers = [str(x) for x in rng.permutation(ALIKE)[:len(layers)]]
        stack = [{"n_layer": int(rng.integers(1, 20 if rich and rng.random() < 0.2 else 4)), "tag_layer": t} for t in layers]
        avail = layers+(["not_in_stack"] if rng.random() < 0.2 else [])
        shapes = {}
        for k in range(int(rng.integers(1, 14 if rich else 4))):
            lst = [rand_shape(rng, L, avail, "add", rich and rng.random() < 0.3) for _ in range(int(rng.integers(1, 12 if rich else 4)))]
            lst += [rand_shape(rng, L*0.7, avail, "sub", rich and rng.random() < 0.3) for _ in range(int(rng.integers(0, 8 if rich else 3)))]
            order = rng.permutation(len(lst))
            shapes["dom_%d" % k] = [lst[j] for j in order]
        names = list(shapes)
        if rng.random() < 0.4:
            off = rng.normal(size=2)*L*10**rng.uniform(-1, 2.5)
            move = lambda c: [[float(x) for x in np.array(q)+off] for q in c]
            for lst in shapes.values():
                for s in lst:
                    q = s["shape_data"]
                    for key in ("coord", "coord_shell"):
                        if key in q:
                            q[key] = move(q[key])
                    if "coord_holes" in q:
                        q["coord_holes"] = [move(h) for h in q["coord_holes"]]
        simp = None if rng.random() < 0.6 else L*1e-3
        cons = None if rng.random() < 0.6 else L*1e-3
        tol = L*1e-6+2*(simp or 0.0)+2*(cons or 0.0)
        lo = np.min([bounds(s)[0] for x in shapes.values() for s in x], axis=0)
        hi = np.max([bounds(s)[1] for x in shapes.values() for s in x], axis=0)
        mode = i % 4
        d = np.append((hi-lo)/(rng.uniform(20, 120, 2) if rich else rng.uniform(8, 20, 2)), L*rng.uniform(0.05, 1.0))
        ctr = float("%.4g" % (rng.normal()*L)) if rng.random() < 0.6 else None
        # given bounds may cut the shapes or leave an empty border
        xy_min = [float(x) for x in lo+d[:2]*rng.uniform(-2.5, 3.5, 2)] if mode in (1, 3) else None
        xy_max = [float(x) for x in hi+d[:2]*rng.uniform(-3.5, 2.5, 2)] if mode in (2, 3) else None
        param = {"dx": float(d[0]), "dy": float(d[1]), "dz": float(d[2]), "cz": ctr, "simplify": simp, "construct": cons, "xy_min": xy_min, "xy_max": xy_max}
        rules = [{"domain_resolve": names[a:], "domain_keep": [names[a-1]]} for a in range(1, len(names))]
        g = geometry(param, stack, shapes, data_conflict={"resolve_rules": True, "conflict_rules": rules})
        try:
            out = pypeec.run_mesher_data(g)["data_geom"]
        except RuntimeError as ex:
            # ill-formed polygons are refused
            ctx.expect("ill-formed" in str(ex) or "invalid" in str(ex), "meshing failed: %s" % ex)
            ctx.count("refused")
            return
        except Exception as ex:
            if not any(np.any(classify(shapes[t], l, np.random.default_rng(0).uniform(lo, hi, (400, 2)), tol) == 1) for t in names for l in layers):
                ctx.count("refused")
                return
            ctx.fail("unexpected exception on valid input: %s: %s" % (type(ex).__name__, str(ex)[:200]))
            return
        meshlib.check_common(ctx, out)
        n, dd, c = np.array(out["n"]), np.array(out["d"], float), np.array(out["c"], float)
        nz = sum(s["n_layer"] for s in stack)
        ctx.expect(n[2] == nz, "layers stack", got=n[2], want=nz)
        ctx.close(dd[2], d[2], 1e-9, "layer thickness")
        ctx.close(c[2], ctr or 0.0, 1e-9, "centre in z", scale=abs(ctr or 0.0)+nz*d[2])
        # in-plane bounds
        gmin, gmax = c[:2]-n[:2]*dd[:2]/2, c[:2]+n[:2]*dd[:2]/2
        ctx.expect(np.all(np.abs(n[:2]-(gmax-gmin)/d[:2]) <= 0.5+1e-6), "voxel count fits the bounds", n=n, d=d)
        if xy_min is not None:
            ctx.close(gmin, np.array(xy_min), 1e-9, "given lower bound", scale=L)
        if xy_max is not None:
            ctx.close(gmax, np.array(xy_max), 1e-9, "given upper bound", scale=L)
        if not any(s["shape_operation"] == "sub" for x in shapes.values() for s in x):
            on = [s for x in shapes.values() for s in x if set(s["shape_layer"]) & set(layers)]
            if on:
                e = tol*3+0.01*max(sdist(s, np.zeros((1, 2)))[1] for s in on)
                lo1, hi1 = np.min([bounds(s)[0] for s in on], axis=0), np.max([bounds(s)[1] for s in on], axis=0)
                ctx.count("computed_bounds")
                if xy_min is None:
                    ctx.expect(np.all(np.abs(gmin-lo1) <= e), "computed lower bound", got=gmin, want=lo1, tol=e)
                if xy_max is None:
                    ctx.expect(np.all(np.abs(gmax-hi1) <= e), "computed upper bound", got=gmax, want=hi1, tol=e)
        got = {t: set(v) for t, v in doms(out).items()}
        ctx.expect(list(got) == names, "domain names")
        pix = np.array([[gmin[0]+(x+0.5)*dd[0], gmin[1]+(y+0.5)*dd[1]] for y in range(n[1]) for x in range(n[0])])
        nin = nout = 0
        z = 0
        per = int(n[0]*n[1])
        for st in stack:
            taken = np.zeros(per)        # 1 claimed by an earlier domain, nan undecided
            for t in names:
                w = classify(shapes[t], st["tag_layer"], pix, tol)
                exp = np.where((taken == 1) | (w == 0), 0.0, np.where(np.isnan(taken) | np.isnan(w), np.nan, 1.0))
                taken = np.where((taken == 1) | (w == 1), 1.0, np.where(np.isnan(taken) | np.isnan(w), np.nan, 0.0))
                for q in range(st["n_layer"]):
                    have = np.zeros(per, bool)
                    base = (z+q)*per
                    have[[v-base for v in got[t] if base <= v < base+per]] = True
                    bad = (exp == 1) & ~have
                    ctx.expect(not bad.any(), "voxel centre inside the composed shape is missing", domain=t, layer=st["tag_layer"], points=pix[bad][:4])
                    bad = (exp == 0) & have
                    ctx.expect(not bad.any(), "voxel centre outside the composed shape is present", domain=t, layer=st["tag_layer"], points=pix[bad][:4])
                nin += int(np.sum(exp == 1)); nout += int(np.sum(exp == 0))
                ctx.count("undecided", int(np.sum(np.isnan(exp))))
            z += st["n_layer"]
        ctx.count("inside", nin); ctx.count("outside", nout)
        ctx.case({"param": param, "stack": stack, "shapes": shapes}, nin > 0 and nout > 0)
        # violations
        rect = {"shape_layer": [layers[0]], "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": None, "coord_shell": [[0.0, 0.0], [2*L, 0.0], [2*L, 2*L], [0.0, 2*L]], "coord_holes": []}}
        base = geometry({**param, "xy_min": [-L, -L], "xy_max": [3*L, 3*L], "simplify": None, "construct": None, "dx": L/3, "dy": L/3}, stack, {"a": [rect]})
        ctx.call(pypeec.run_mesher_data, base)
        for what, p in {"zero dx": {"dx": 0.0}, "negative dy": {"dy": -L}, "zero dz": {"dz": 0.0}, "too large voxel": {"dx": 20*L}, "inverted bounds": {"xy_min": [3*L, 3*L], "xy_max": [-L, -L]},
                        "inverted x bounds": {"xy_min": [4*L, -L]}, "empty bounds": {"xy_min": [3*L, -L]}, "bounds of three values": {"xy_min": [0.0, 0.0, 0.0]}, "text cz": {"cz": "0"}}.items():
            h = gen.merge(base, {"data_voxelize": {"param": p}})
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        for what, p in {"zero layers": 0, "negative layers": -1}.items():
            h = gen.merge(base, {})
            h["data_voxelize"]["layer_stack"] = stack+[{"n_layer": p, "tag_layer": "new"}]
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        h = gen.merge(base, {})
        h["data_voxelize"]["layer_stack"] = stack+[{"n_layer": 1, "tag_layer": layers[0]}]
        ctx.raises(pypeec.run_mesher_data, h, what="repeated layer name")
        for what, p in {"unknown operation": {"shape_operation": "xor"}, "unknown type": {"shape_type": "disc"}, "no layer": {"shape_layer": []}, "trace without points": {"shape_type": "trace", "shape_data": {"width": L, "coord": []}},
                        "negative diameter": {"shape_type": "pad", "shape_data": {"diameter": -L, "coord": [[0.0, 0.0]]}}, "negative width": {"shape_type": "trace", "shape_data": {"width": -L, "coord": [[0.0, 0.0], [L, L]]}},
                        "negative buffer": {"shape_data": {**rect["shape_data"], "buffer": -L}}, "self-intersecting shell": {"shape_data": {**rect["shape_data"], "coord_shell": [[0.0, 0.0], [L, L], [L, 0.0], [0.0, L]]}},
                        "shell of two points": {"shape_data": {**rect["shape_data"], "coord_shell": [[0.0, 0.0], [L, L]]}}, "missing holes": {"shape_data": {"buffer": None, "coord_shell": rect["shape_data"]["coord_shell"]}}}.items():
            h = gen.merge(base, {})
            h["data_voxelize"]["geometry_shape"] = {"a": [{**rect, **p}]}
            ctx.raises(pypeec.run_mesher_data, h, what=what)

    ctx.ploop("random", ctx.n(160, 2400), case)
    ctx.ploop("reference", ctx.n(90, 1200), reference)
    if not ctx.only:
        for k in ("inside", "outside"):
            ctx.expect(ctx.counters.get(k, 0) > 1000, "workload decides voxels: "+k)
        ctx.expect(ctx.counters.get("refused", 0) <= 0.3*ctx.stage_counts["random"], "valid shapes are meshed")
        ctx.expect(ctx.counters.get("slivers", 0) > 0, "slivers collapsing on the grid are removed")
        for k in ("plain", "simplify", "construct"):
            ctx.expect(ctx.counters.get("reference_"+k, 0) > 0, "reference surfaces are checked: "+k)
        ctx.expect(ctx.counters.get("computed_bounds", 0) > 0, "computed bounds are checked")
