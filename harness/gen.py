"""Problem generators: random voxel structures, materials, sources, options."""
import copy
import zlib
import numpy as np
from model import lin, unlin


def tol(**kw):
    """Tight-tolerance solver options (overridable with key=value, nested dicts are merged)."""
    it = {"solver": "gmres", "rel_tol": 1e-11, "abs_tol": 1e-30, "n_inner": 60, "n_outer": 60}
    t = {
        "parallel_sweep": {"n_jobs": 0, "n_threads": None},
        "integral_simplify": 1000.0,
        "biot_savart": "face",
        "mult_type": "fft",
        "fft_options": {"matrix_split": False, "library": "SciPy", "scipy_worker": 0, "fftw_thread": 0, "fftw_timeout": 100.0, "fftw_byte_align": 16},
        "factorization_options": {
            "library": "SuperLU",
            "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": None},
            "pardiso_options": {"thread_pardiso": 0, "thread_mkl": 0}},
        "solver_options": {
            "coupling": "direct",
            "tolerance_options": {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9},
            "power_options": {"stop": False, "n_min": 4, "n_cmp": 3, "rel_tol": 1e-6, "abs_tol": 1e-12},
            "direct_options": dict(it),
            "segregated_options": {
                "rel_tol": 1e-10, "abs_tol": 1e-30, "relax_electric": 1.0, "relax_magnetic": 1.0, "n_min": 2, "n_max": 100,
                "iter_electric_options": dict(it), "iter_magnetic_options": dict(it)}},
        "condition_options": {"check": True, "tolerance_electric": 1e80, "tolerance_magnetic": 1e80,
                              "norm_options": {"t_accuracy": 2, "n_iter_max": 25}},
    }
    return merge(t, kw)


def merge(a, b):
    a = copy.deepcopy(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            a[k] = merge(a[k], v)
        else:
            a[k] = copy.deepcopy(v)
    return a


def geometry(n, d, c, dom, pts=(), **kw):
    g = {
        "mesh_type": "voxel",
        "data_voxelize": {"param": {"n": [int(x) for x in n], "d": [float(x) for x in d], "c": [float(x) for x in c]},
                          "domain_index": {k: [int(i) for i in v] for k, v in dom.items()}},
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": [[float(x) for x in p] for p in pts]},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }
    return merge(g, kw)


def neighbours(n, v):
    p = unlin(n, v)
    out = []
    for a in range(3):
        for s in (-1, 1):
            q = p.copy(); q[a] += s
            if 0 <= q[a] < n[a]:
                out.append(lin(n, q))
    return out


def components(n, vox):
    vox = set(vox)
    out = []
    while vox:
        st = [min(vox)]
        comp = set(st)
        while st:
            v = st.pop()
            for w in neighbours(n, v):
                if w in vox and w not in comp:
                    comp.add(w); st.append(w)
        vox -= comp
        out.append(sorted(comp))
    return out


def blob(rng, n, size, free, stringy=0.5):
    """Random connected set of voxels inside the free set."""
    free = set(free)
    if not free:
        return []
    v = int(rng.choice(sorted(free)))
    cur = [v]
    s = {v}
    while len(cur) < size:
        base = cur[-1] if rng.random() < stringy else int(rng.choice(cur))
        cand = [w for w in neighbours(n, base) if w in free and w not in s]
        if not cand:
            cand = [w for u in cur for w in neighbours(n, u) if w in free and w not in s]
            if not cand:
                break
        w = int(rng.choice(cand))
        s.add(w); cur.append(w)
    return cur


def far_from(n, vox):
    """Voxels touching a set by a face (to keep components apart)."""
    out = set(vox)
    for v in vox:
        out |= set(neighbours(n, v))
    return out


def rand_size(rng):
    # mostly millimetres, sometimes a fraction of a micrometre or tens of metres
    base = 10**(rng.uniform(-4, -2) if rng.random() < 0.7 else rng.uniform(-7, 1))
    k = rng.integers(0, 4)
    if k == 0:
        f = np.ones(3)
    elif k == 1:
        f = rng.choice([0.5, 1.0, 2.0, 3.0], 3)
    else:
        f = 10**rng.uniform(-0.4, 0.4, 3)
    return [float("%.3g" % x) for x in base*f]


def cplx(rng, scale=1.0):
    return float(scale*rng.normal()), float(scale*rng.normal())


def random_problem(rng, nmax=(5, 4, 4), n_cond=None, n_mag=None, kinds=None, allow_em=True, freq=None, passive=True, complex_rho=0.3,
                   src_kinds=("current", "voltage"), var_types=("lumped", "distributed"), orient=("isotropic", "anisotropic"), elements=True, max_vox=14):
    """Random valid problem. Returns dict with n,d,c,dom,material_def,source_def,param and 'info'."""
    while True:
        P = _random_problem(rng, nmax, n_cond, n_mag, allow_em, freq, complex_rho, src_kinds, var_types, orient, elements, max_vox)
        if P is not None:
            return plain_values(awkward_names(rng, P) if rng.random() < 0.3 else P)


def plain_values(P):
    """Sometimes a source without excitation (grounded sink, open port), as in most hand-written files, or very small / large ones."""
    # own random stream: the other draws are not affected
    rng = np.random.default_rng(zlib.crc32(repr((P["n"], P["d"], P["dom"], P["param"]["freq"])).encode()))
    sd, sv = P["source_def"], P["param"]["source_val"]

    def whole(x, f):
        return [whole(y, f) for y in x] if isinstance(x, list) else f(x)
    if len(sd) > 1 and rng.random() < 0.25:
        v = sv[list(sd)[int(rng.integers(len(sd)))]]
        for k in v:
            if k[0] in "IV":
                v[k] = whole(v[k], lambda y: 0.0)
    if rng.random() < 0.25:  # real or imaginary excitations only
        z = str(rng.choice(["_im", "_im", "_re"]))
        for v in sv.values():
            for k in v:
                if k[0] in "IV" and k.endswith(z) and any(np.any(v[k[0]+q]) for q in ("_re", "_im") if q != z):
                    v[k] = whole(v[k], lambda y: 0.0)
    if rng.random() < 0.2:  # micro- or mega-excitations, common to all the sources
        f = float(10**rng.uniform(-11, 7))
        for v in sv.values():
            for k in v:
                if k[0] in "IV":
                    v[k] = whole(v[k], lambda y: f*y)
    return P


def awkward_names(rng, P):
    """Rename domains, materials and sources: prefixes of one another, same names for different things, digits, cases, blanks."""
    suffix = ["", "1", "10", "11", "0", "_", "c", "m", " x", "-1", "C", "é", "domain", ".y"]
    pool = ["a", "aa", "A", "a1", "a10", "0", "1", "01", "10", "a b", "é", "freq", "None", "source", "material", "V", "I", "-", "c", "m", "all", "rho_re"]

    def fresh(names, make):
        out = {}
        for t in names:
            while True:
                x = make(t)
                if x not in out.values():
                    break
            out[t] = x
        return out
    dn = fresh(P["dom"], lambda t: t[0]+str(rng.choice(suffix))+(str(rng.choice(suffix)) if rng.random() < 0.3 else ""))
    mn = fresh(P["material_def"], lambda t: str(rng.choice(pool)))
    sn = fresh(P["source_def"], lambda t: str(rng.choice(pool)))
    Q = dict(P)
    Q["dom"] = {dn[t]: v for t, v in P["dom"].items()}
    Q["material_def"] = {mn[t]: {**v, "domain_list": [dn[x] for x in v["domain_list"]]} for t, v in P["material_def"].items()}
    Q["source_def"] = {sn[t]: {**v, "domain_list": [dn[x] for x in v["domain_list"]]} for t, v in P["source_def"].items()}
    Q["param"] = {**P["param"], "material_val": {mn[t]: v for t, v in P["param"]["material_val"].items()}, "source_val": {sn[t]: v for t, v in P["param"]["source_val"].items()}}
    return Q


def split_list(rng, lst, k):
    lst = list(lst)
    rng.shuffle(lst)
    k = min(k, len(lst))
    cuts = sorted(rng.choice(np.arange(1, len(lst)), k-1, replace=False)) if k > 1 else []
    return [x for x in np.split(np.array(lst, dtype=int), cuts)]


def mat_param(rng, mtype, var, ori, N, complex_rho):
    def f(lo, hi):
        def one():
            return float(10**rng.uniform(lo, hi))
        base = one()
        def near():
            return float(base*10**rng.uniform(-0.4, 0.4))
        if var == "lumped" and ori == "isotropic":
            return near()
        if var == "lumped":
            return [near() for _ in range(3)]
        if ori == "isotropic":
            return [near() for _ in range(N)]
        return [[near() for _ in range(3)] for _ in range(N)]

    def zero():
        if var == "lumped" and ori == "isotropic":
            return 0.0
        if var == "lumped":
            return [0.0]*3
        if ori == "isotropic":
            return [0.0]*N
        return [[0.0]*3 for _ in range(N)]
    def times(x, k):
        return (np.asarray(x)*k).tolist()
    out = {}
    if mtype in ("electric", "electromagnetic"):
        # sometimes a material with another order of magnitude, sometimes a capacitive part
        k = float(10**rng.uniform(0, 2)) if rng.random() < 0.15 else 1.0
        sign = -1.0 if rng.random() < 0.3 else 1.0
        out["rho_re"] = times(f(-8.0, -7.0), k)
        out["rho_im"] = times(f(-9.0, -8.0), sign*k) if rng.random() < complex_rho else zero()
    if mtype in ("magnetic", "electromagnetic"):
        k = float(10**rng.uniform(-2, 3)) if rng.random() < 0.25 else 1.0
        out["chi_re"] = times(f(0.0, 1.5), k)
        out["chi_im"] = times(f(-1.0, 0.5), k) if rng.random() < 0.6 else zero()
    return out


def src_param(rng, typ, var, N, elements, rscale):
    a, b = ("I", "Y") if typ == "current" else ("V", "Z")

    def val(scale, positive=False):
        def one():
            x = scale*rng.normal()
            return float(abs(x) if positive else x)
        return one() if var == "lumped" else [one() for _ in range(N)]

    def zero():
        return 0.0 if var == "lumped" else [0.0]*N
    vs = 1.0 if typ == "current" else rscale
    es = 1.0/rscale if typ == "current" else rscale
    has = elements and rng.random() < 0.6
    out = {a+"_re": val(vs), a+"_im": val(vs) if rng.random() < 0.7 else zero(),
           b+"_re": val(es, True) if has else zero(), b+"_im": val(0.3*es) if (has and rng.random() < 0.5) else zero()}
    if has and rng.random() < 0.12:
        # purely reactive element
        out.update({b+"_re": zero(), b+"_im": val(0.3*es)})
    return out


def rand_grid(rng, nmax):
    """Voxel numbers: compact blocks, flat sheets, bars and long structures."""
    n = [int(rng.integers(2, m+1)) for m in nmax]
    u = rng.random()
    if u < 0.12:
        # sheet
        n[int(rng.integers(3))] = 1
    elif u < 0.22:
        # bar along any axis
        n = [1, 1, 1]
        n[int(rng.integers(3))] = int(rng.integers(4, 4+2*sum(nmax)))
    elif u < 0.30:
        # long structure along any axis
        n = [int(x) for x in rng.integers(1, 4, 3)]
        n[int(rng.integers(3))] = int(rng.integers(8, 8+2*max(nmax)))
    return n


def _random_problem(rng, nmax, n_cond, n_mag, allow_em, freq, complex_rho, src_kinds, var_types, orient, elements, max_vox):
    n = rand_grid(rng, nmax)
    d = rand_size(rng)
    c = [float("%.3g" % x) for x in rng.normal(size=3)*3*max(d)]
    free = set(range(int(np.prod(n))))
    nc = int(rng.integers(1, 3)) if n_cond is None else n_cond
    nm = int(rng.choice([0, 1, 1, 2])) if n_mag is None else n_mag
    conds, mags = [], []
    blocked = set()
    for _ in range(nc):
        b = blob(rng, n, int(rng.integers(2, max_vox+1)), free-blocked, rng.choice([0.2, 0.9]))
        if len(b) < 2:
            continue
        conds.append(b)
        blocked |= far_from(n, b)
        free -= set(b)
    if not conds:
        return None
    mag_free = set(free)
    for _ in range(nm):
        b = blob(rng, n, int(rng.integers(2, max_vox+1)), mag_free, 0.3)
        if len(b) < 2:
            continue
        mags.append(b)
        mag_free -= set(b)
    if n_mag and len(mags) < n_mag:
        return None
    if n_cond and len(conds) < n_cond:
        return None
    dom, material_def, source_def = {}, {}, {}
    mval, sval = {}, {}
    cond_domains = []
    k_dom = 0
    rscale = 1e-7/ (min(d)) * 3
    for ci, b in enumerate(conds):
        parts = split_list(rng, b, int(rng.integers(2, 5)))
        names = []
        for p in parts:
            nm_ = "c%d" % k_dom; k_dom += 1
            dom[nm_] = [int(x) for x in p]
            names.append(nm_)
        # at most all domains get a source, at least one
        ns = int(rng.integers(2 if rng.random() < 0.85 else 1, len(names)+1)) if len(names) > 1 else 1
        perm = list(names); rng.shuffle(perm)
        src_names = perm[:ns]
        groups = []
        while src_names:
            g = int(rng.integers(1, min(2, len(src_names))+1)) if len(src_names) != 2 or groups else 1
            groups.append(src_names[:g]); src_names = src_names[g:]
        anchored = False
        for gi, g in enumerate(groups):
            typ = str(rng.choice(list(src_kinds)))
            if gi == len(groups)-1 and not anchored:
                typ = "voltage" if "voltage" in src_kinds else typ
            if typ == "voltage":
                anchored = True
            var = str(rng.choice(list(var_types)))
            tag = "s%d_%d" % (ci, gi)
            source_def[tag] = {"domain_list": list(g), "source_type": typ, "var_type": var}
            N = sum(len(dom[x]) for x in g)
            sval[tag] = src_param(rng, typ, var, N, elements, rscale)
        cond_domains.append(names)
    mag_names = []
    for b in mags:
        for p in split_list(rng, b, int(rng.integers(1, 3))):
            nm_ = "m%d" % k_dom; k_dom += 1
            dom[nm_] = [int(x) for x in p]
            mag_names.append(nm_)
    # materials: random grouping of domains
    em_used = False
    pool = [x for names in cond_domains for x in names]
    rng.shuffle(pool)
    mi = 0
    while pool:
        g = int(rng.integers(1, len(pool)+1))
        grp, pool = pool[:g], pool[g:]
        mt = "electric"
        if allow_em and rng.random() < 0.15:
            mt = "electromagnetic"
        var, ori = str(rng.choice(["lumped", "distributed"])), str(rng.choice(list(orient)))
        tag = "mat%d" % mi; mi += 1
        material_def[tag] = {"domain_list": grp, "material_type": mt, "orientation_type": ori, "var_type": var}
        mval[tag] = mat_param(rng, mt, var, ori, sum(len(dom[x]) for x in grp), complex_rho)
    pool = list(mag_names)
    rng.shuffle(pool)
    while pool:
        g = int(rng.integers(1, len(pool)+1))
        grp, pool = pool[:g], pool[g:]
        var, ori = str(rng.choice(["lumped", "distributed"])), str(rng.choice(list(orient)))
        tag = "mat%d" % mi; mi += 1
        material_def[tag] = {"domain_list": grp, "material_type": "magnetic", "orientation_type": ori, "var_type": var}
        mval[tag] = mat_param(rng, "magnetic", var, ori, sum(len(dom[x]) for x in grp), complex_rho)
    # random order of the definitions
    def shuffled(x):
        k = list(x); rng.shuffle(k)
        return {q: x[q] for q in k}
    material_def, source_def, dom = shuffled(material_def), shuffled(source_def), shuffled(dom)
    if freq is None:
        # characteristic frequency where omega*L ~ R
        f0 = 1e-7/(2*np.pi*4e-7*np.pi*max(d)*min(d))
        freq = 0.0 if rng.random() < 0.25 else float("%.3g" % (f0*10**(rng.uniform(-1.5, 1.0) if rng.random() < 0.8 else rng.uniform(-4.0, 3.0))))
        if rng.random() < 0.05:
            # close to DC
            freq = float("%.3g" % 10**rng.uniform(-9, 0))
    if rng.random() < 0.2:
        # other conductivity range: resistivities, frequency and impedances are scaled together
        k = float(10**rng.uniform(-2, 6))
        for v in mval.values():
            for q in ("rho_re", "rho_im"):
                if q in v:
                    v[q] = (np.asarray(v[q])*k).tolist()
        for v in sval.values():
            for q in v:
                e = {"V": k, "Z": k, "Y": 1/k, "I": 1.0}[q[0]]
                v[q] = (np.asarray(v[q])*e).tolist()
        freq = float("%.3g" % (freq*k))
    return {"n": n, "d": d, "c": c, "dom": dom, "material_def": material_def, "source_def": source_def,
            "param": {"freq": float(freq), "material_val": mval, "source_val": sval}}


def data_problem(P, sweeps=None):
    sw = sweeps if sweeps is not None else {"sim": {"init": None, "param": P["param"]}}
    return copy.deepcopy({"material_def": P["material_def"], "source_def": P["source_def"], "sweep_solver": sw})


def describe(P):
    return {"n": P["n"], "d": P["d"], "c": P["c"], "freq": P["param"]["freq"],
            "domains": {k: list(map(int, v)) for k, v in P["dom"].items()},
            "materials": {k: [v["material_type"], v["orientation_type"], v["var_type"], v["domain_list"]] for k, v in P["material_def"].items()},
            "sources": {k: [v["source_type"], v["var_type"], v["domain_list"]] for k, v in P["source_def"].items()},
            "param": P["param"]}


def large_problem(rng, n_vox=(400, 2500), n_mag=None, freq=None, complex_rho=0.3):
    """Large structure (some hundred to some thousand voxels): two slabs with random holes, sources on random patches."""
    while True:
        tot = int(np.exp(rng.uniform(*np.log(n_vox))))
        a = rng.uniform(0.3, 3.0, 3)
        a /= np.prod(a)**(1/3)
        n = [max(2, int(round(x))) for x in a*tot**(1/3)]
        ax = int(rng.integers(3))
        n[ax] = max(n[ax], 3)
        N = int(np.prod(n))
        pos = np.array(np.unravel_index(np.arange(N), n, order="F")).T
        cut = n[ax]//2 if (rng.random() < 0.7 if n_mag is None else n_mag) else n[ax]
        hole = rng.random(N) < rng.choice([0.0, 0.05, 0.25])
        cond = np.flatnonzero((pos[:, ax] < cut) & ~hole)
        mag = np.flatnonzero((pos[:, ax] >= cut+int(rng.integers(0, 2))) & ~hole)
        comp = components(n, [int(v) for v in cond])
        cond = max(comp, key=len) if comp else []
        if len(cond) >= 20:
            break
    d = rand_size(rng)
    nd = int(rng.integers(3, 6))
    lead = int(rng.choice([x for x in range(3)]))
    order = sorted(cond, key=lambda v: (pos[v][lead], rng.random()))
    k1, k2 = [int(x) for x in rng.integers(1, max(2, len(cond)//10), 2)]
    dom = {"src": order[:k1], "snk": order[-k2:]}
    mid = list(order[k1:-k2])
    for k, x in enumerate(split_list(rng, mid, nd)):
        dom["c%d" % k] = x
    if len(mag):
        for k, x in enumerate(split_list(rng, [int(v) for v in mag], int(rng.integers(1, 4)))):
            dom["m%d" % k] = x
    dom = {k: [int(v) for v in x] for k, x in dom.items()}
    keys = list(dom); rng.shuffle(keys)
    dom = {k: dom[k] for k in keys}
    mdef, mval = {}, {}
    for kind, pool in (("electric", [k for k in dom if k[0] != "m"]), ("magnetic", [k for k in dom if k[0] == "m"])):
        while pool:
            g = int(rng.integers(1, len(pool)+1))
            grp, pool = pool[:g], pool[g:]
            var, ori = str(rng.choice(["lumped", "distributed"])), str(rng.choice(["isotropic", "anisotropic"]))
            t = "mat%d" % len(mdef)
            mdef[t] = {"domain_list": grp, "material_type": kind, "orientation_type": ori, "var_type": var}
            mval[t] = mat_param(rng, kind, var, ori, sum(len(dom[x]) for x in grp), complex_rho)
    sdef, sval = {}, {}
    rs = 3e-7/min(d)
    for t, dl, typ in (("a", ["src"], str(rng.choice(["current", "voltage"]))), ("b", ["snk"], "voltage")):
        var = str(rng.choice(["lumped", "distributed"]))
        sdef[t] = {"domain_list": dl, "source_type": typ, "var_type": var}
        sval[t] = src_param(rng, typ, var, sum(len(dom[x]) for x in dl), True, rs)
    if freq is None:
        f0 = 1e-7/(2*np.pi*4e-7*np.pi*max(d)*min(d)*max(n))
        freq = 0.0 if rng.random() < 0.2 else float("%.3g" % (f0*10**rng.uniform(-1.0, 1.0)))
    return {"n": n, "d": d, "c": [float("%.3g" % x) for x in rng.normal(size=3)*3*max(d)], "dom": dom, "material_def": mdef, "source_def": sdef,
            "param": {"freq": float(freq), "material_val": mval, "source_val": sval}}
