"""Shared helpers of the solver checks (public API only)."""
import copy
import numpy as np
import pypeec
import gen, model, oracle
from oracle import var

MU0 = model.MU0


def mesh(ctx, P, pts=(), **kw):
    return ctx.call(pypeec.run_mesher_data, gen.geometry(P["n"], P["d"], P["c"], P["dom"], pts, **kw))


def cap(P, options):
    """A large structure which stagnates is given up early."""
    it = options["solver_options"]["direct_options"]
    if sum(len(x) for x in P["dom"].values()) > 120 and it["n_inner"]*it["n_outer"] == 3600:
        it["n_outer"] = 10
    return options


def solve(ctx, P, options=None, sweeps=None, pts=(), geo=None):
    """Mesh + solve; returns the whole solution."""
    vox = ctx.call(pypeec.run_mesher_data, geo) if geo is not None else mesh(ctx, P, pts)
    options = cap(P, options or gen.tol())
    return ctx.call(pypeec.run_solver_data, vox, gen.data_problem(P, sweeps), options)


def solve1(ctx, P, options=None, pts=(), need=True):
    """One sweep; counts (and returns None for) a sweep that does not converge."""
    sol = solve(ctx, P, options, None, pts)
    s = sol["data_sweep"]["sim"]
    ctx.count("solves")
    if not s["has_converged"]:
        ctx.count("not_converged")
        return None, sol
    return s, sol


def check_convergence_rate(ctx, limit=0.2):
    if ctx.only:
        return
    tot = ctx.counters.get("solves", 0)
    bad = ctx.counters.get("not_converged", 0)
    if tot >= 10:
        ctx.expect(bad <= limit*tot, "well-posed problems converge: %d of %d did not" % (bad, tot))


def amax(x):
    x = np.asarray(x)
    return float(np.max(np.abs(x))) if x.size else 0.0


def vox_rho(P, phys):
    """Per-voxel complex rho (electric) or magnetic rho, in solver voxel order, and the voxel order."""
    idx, rho = [], []
    for tag, md in P["material_def"].items():
        i = model.dom_idx(P["dom"], md["domain_list"])
        e, m = model.mat_values(md, P["param"]["material_val"][tag], len(i))
        v = e if phys == "c" else m
        if v is not None:
            idx += i; rho.append(v)
    return idx, (np.concatenate(rho) if rho else np.zeros((0, 3), complex))


class View:
    """Face-level reconstruction of a solver output (no kernels involved)."""
    def __init__(self, P, s):
        self.P, self.s = P, s
        ic, rc = vox_rho(P, "c")
        im, rm = vox_rho(P, "m")
        self.c, self.m = model.Net(P["n"], P["d"], ic, rc), model.Net(P["n"], P["d"], im, rm)
        self.vol = float(np.prod(P["d"]))
        self.I_fc = reconstruct(self.c, var(s, "J_c"))
        self.I_fm = reconstruct(self.m, var(s, "B_m"))
        self.freq = s["freq"]
        self.w = 2*np.pi*s["freq"]
        self.fp = 1.0 if s["freq"] == 0 else 0.5
        self.fw = 0.5 if s["freq"] == 0 else 0.25

    def factor(self):
        return max(1.0, noise(self.s, self.raw_scales())/1e-7)

    def scales(self, *others):
        """Magnitudes from the output itself (with physical floors), enlarged if a converged residual (own or of the compared views) is not small against them."""
        f = max(v.factor() for v in (self,)+others)
        return {k: f*v for k, v in self.raw_scales().items()}

    def raw_scales(self):
        P, s, c, m = self.P, self.s, self.c, self.m
        I = max(amax(self.I_fc), amax(var(s, "S_c"))*self.vol)
        V = amax(var(s, "V_c"))
        for t, sd in P["source_def"].items():
            v = P["param"]["source_val"][t]
            a = "I" if sd["source_type"] == "current" else "V"
            x = amax(np.asarray(v[a+"_re"])+1j*np.asarray(v[a+"_im"]))
            if a == "I":
                I = max(I, x)
            else:
                V = max(V, x)
        if len(c.faces):
            L0 = model.kernel(P["d"]).get((0, 0, 0))[0]*MU0/np.array([c.area[a]**2 for a in c.ax])
            Z = np.abs(c.R)+self.w*L0
            V = max(V, I*float(np.max(Z)))
            I = max(I, V/float(np.max(Z)))
        F = amax(self.I_fm)
        Vm = amax(var(s, "V_m"))
        if len(m.vox):
            Vm = max(Vm, 1e-3*I)
        if len(m.faces):
            F = max(F, Vm/float(np.max(np.abs(m.R))))
        Rc = float(np.max(np.abs(c.R))) if len(c.faces) else 0.0
        Rm = float(np.max(np.abs(m.R))) if len(m.faces) else 0.0
        Pe, Pm = self.fp*Rc*I*I, self.fp*self.w*Rm*F*F
        Wt = max(MU0*max(P["d"])*I*I, F*I)
        vol = self.vol
        amin = float(np.min(c.area))
        t = dict(I=I, V=V, V_c=V, J_c=I/amin, P_c=Pe/vol, S_c=I/vol, V_m=Vm, B_m=F/amin, P_m=Pm/vol, Q_m=F/vol,
                 P_electric=Pe, P_magnetic=Pm, P_total=Pe+Pm, W_electric=Wt, W_magnetic=Wt, W_total=Wt, S=V*I, F=F, H_p=I/min(P["d"]))
        return {k: max(v, 1e-300) for k, v in t.items()}


def noise(s, sc):
    """Relative solution error allowed by the residual left by the iterative solver (the rows have different units)."""
    res = float(s.get("solver_status", {}).get("res_val", 0.0))
    if not np.isfinite(res):
        return 0.0
    lim = min(sc["V"], sc["I"])
    if np.size(var(s, "B_m")) and sc["V_m"] > 1e-250:
        lim = min(lim, sc["V_m"])
    return min(1e-3, 50*res/max(lim, 1e-300))


def reconstruct(net, dens):
    """Face flows from the voxel densities: each axis-aligned run of voxels starts with a single face."""
    I = np.zeros(len(net.faces), complex)
    lower = {}
    for k, (ax, lo, up) in enumerate(net.faces):
        lower[(ax, lo)] = k
    has_up = {(ax, up) for (ax, lo, up) in net.faces}
    for ax in range(3):
        for v in range(len(net.vox)):
            if (ax, v) in has_up or (ax, v) not in lower:
                continue
            # forward and backward sweeps are averaged implicitly by using both ends for long runs
            run = []
            p = v
            while (ax, p) in lower:
                k = lower[(ax, p)]
                run.append(k)
                p = net.faces[k][2]
            vox = [net.faces[k][1] for k in run]+[net.faces[run[-1]][2]]
            tot = [2*net.area[ax]*dens[q, ax] for q in vox]
            nrun = len(run)
            f = np.zeros(nrun, complex)
            prev = 0.0
            half = (nrun+1)//2
            for j in range(half):
                prev = tot[j]-prev
                f[j] = prev
            prev = 0.0
            for j in range(nrun-1, half-1, -1):
                prev = tot[j+1]-prev
                f[j] = prev
            I[run] = f
    return I


CMP_FIELDS = ("V_c", "J_c", "P_c", "S_c", "V_m", "B_m", "P_m", "Q_m")
CMP_INT = ("P_electric", "P_magnetic", "P_total", "W_electric", "W_magnetic", "W_total")


def compare_outputs(ctx, s1, s2, sc, tol, tag, fields=True, cloud=True):
    """Two sweep results of the same problem."""
    tol = max(tol, noise(s2, sc))
    if fields:
        for k in CMP_FIELDS:
            ctx.close(var(s2, k), var(s1, k), tol, "%s: field %s" % (tag, k), scale=sc[k])
    if cloud and np.size(var(s1, "H_p")):
        ctx.close(var(s2, "H_p"), var(s1, "H_p"), 10*tol, "%s: cloud field" % tag, scale=max(amax(var(s1, "H_p")), 1e-6*sc["H_p"]))
    compare_scalars(ctx, s1, s2, sc, tol, tag)


def compare_scalars(ctx, s1, s2, sc, tol, tag):
    tol = max(tol, noise(s2, sc))
    for k in CMP_INT:
        ctx.close(s2["integral"][k], s1["integral"][k], tol, "%s: integral %s" % (tag, k), scale=sc[k])
    ctx.close(s2["integral"]["S_total"], s1["integral"]["S_total"], tol, tag+": S_total", scale=sc["S"])
    ctx.expect(set(s1["source"]) == set(s2["source"]), tag+": same sources")
    for t in s1["source"]:
        for k, q in (("V", "V"), ("I", "I"), ("S", "S")):
            ctx.close(s2["source"][t][k], s1["source"][t][k], tol, "%s: source %s" % (tag, k), scale=sc[q], source=t)
    for t in s1["material"]:
        if t in s2["material"]:
            for k in ("P_electric", "P_magnetic", "P_total"):
                ctx.close(s2["material"][t][k], s1["material"][t][k], tol, "%s: material %s" % (tag, k), scale=sc[k], material=t)


def big(rng, **kw):
    """Larger structures than the dense reference can take (some with hundreds of voxels)."""
    if rng.random() < 0.3 and not set(kw)-{"max_vox", "n_mag", "freq", "complex_rho", "nmax"}:
        return gen.large_problem(rng, (150, 900), kw.get("n_mag"), kw.get("freq"), kw.get("complex_rho", 0.3))
    a = dict(nmax=[(12, 9, 6), (30, 4, 3), (6, 6, 12), (20, 12, 1)][int(rng.integers(4))], max_vox=90)
    a["nmax"] = tuple(max(2, x) for x in a["nmax"])
    a.update(kw)
    return gen.random_problem(rng, **a)


def clone(P):
    return copy.deepcopy(P)


def outside_points(rng, P, k, margin=1.0):
    """Points not closer than about one voxel to an active voxel centre in all directions."""
    n, d, c = np.array(P["n"]), np.array(P["d"]), np.array(P["c"])
    act = np.array([model.centre(P["n"], P["d"], P["c"], v) for v in sorted({i for x in P["dom"].values() for i in x})])
    out = []
    while len(out) < k:
        q = c+(rng.random(3)-0.5)*(n+6)*d
        if np.all(np.any(np.abs(act-q) > margin*1.02*d, axis=1)):
            out.append(q)
    return np.array(out).reshape(-1, 3)


def by_voxel(sol, s):
    """Fields in a canonical voxel order: {field: array sorted by voxel index}, voxel lists."""
    ic, im = np.asarray(sol["data_init"]["idx_vc"]), np.asarray(sol["data_init"]["idx_vm"])
    oc, om = np.argsort(ic, kind="stable"), np.argsort(im, kind="stable")
    out = {k: var(s, k)[oc] for k in ("V_c", "J_c", "P_c", "S_c")}
    out.update({k: var(s, k)[om] for k in ("V_m", "B_m", "P_m", "Q_m")})
    return out, ic[oc], im[om]


def flags_c(P):
    """Fraction of useful sweeps helper."""
    return any(t.startswith("m") for t in P["dom"])


def overflow(ex):
    """Numerical overflow of a diverging iteration, refused by the numerical libraries."""
    txt = str(ex).lower()
    return isinstance(ex, (RuntimeWarning, FloatingPointError)) or (isinstance(ex, ValueError) and any(w in txt for w in ("finite", "nan", "inf", "dznrm2")))
