"""C05: partial inductance, potential and coupling integrals, measured at the terminals."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("two-voxel electric and magnetic bars at random offsets, directions and voxel aspect ratios: the self and mutual partial inductance (open-circuit voltage), the potential "
        "coefficients (V_m against the solved charges) and the coupling coefficients (magneto-motive force, induced voltage) are measured from the solver output and compared with an "
        "independent quadrature of the Green integrals; the same pairs with a finite simplification distance give the far-field error against the exact value; "
        "non-trivial: every pair is a distinct (aspect, offset, directions)")
ASSUMPTIONS = ["quadrature oracle accurate to 1e-9 (cross-checked formula independent of the code)", "analytical cancellation allowed at large distance: tolerance 1e-7 of the self term",
               "far-field bound: relative error below 0.8/distance**2 (coupling 1.2) from a normalized distance of 4"]


def bar(n, p, ax):
    q = np.array(p).copy(); q[ax] += 1
    return [model.lin(n, p), model.lin(n, q)]


LUMP = lambda dl, mt="electric", ori="isotropic": {"domain_list": dl, "material_type": mt, "orientation_type": ori, "var_type": "lumped"}
SRC = lambda dl, t: {"domain_list": dl, "source_type": t, "var_type": "lumped"}


def rand_d(rng):
    base = 10**(rng.uniform(-5, -1) if rng.random() < 0.6 else rng.uniform(-8, 2))
    k = rng.integers(4)
    if k == 0:
        f = np.ones(3)
    elif k == 1:
        f = rng.permutation([1.0, 1.0, float(10**rng.uniform(-1, 1))])
    else:
        f = 10**rng.uniform(-0.6, 0.6, 3)
    return [float("%.4g" % x) for x in base*f]


def cancellation(off, d):
    """Rounding error of the closed form (differences of terms of the order of the fifth power of the distance)."""
    return 10*2.3e-16*float(np.linalg.norm((np.abs(off)+1)*np.array(d)))**5/(4*np.pi)


def run(ctx):
    def inductance(rng, i):
        d = rand_d(rng)
        far = i % 4 == 3
        mx = (26, 3, 3) if far else (6, 5, 4)
        n = [int(x) for x in rng.permutation(mx)]
        ax1, ax2 = int(rng.integers(3)), int(rng.integers(3))
        if rng.random() < 0.7:
            ax2 = ax1
        for _ in range(300):
            p = rng.integers(0, np.array(n)-np.eye(3, dtype=int)[ax1])
            q = rng.integers(0, np.array(n)-np.eye(3, dtype=int)[ax2])
            a, b = bar(n, p, ax1), bar(n, q, ax2)
            if not set(a) & set(b) and len(gen.components(n, a+b)) == 2:
                break
        else:
            return
        flip = rng.random() < 0.5
        K = model.kernel(d)
        area = np.array([d[1]*d[2], d[0]*d[2], d[0]*d[1]])
        L0 = model.MU0*K.get((0, 0, 0))[0]/area[ax1]**2
        # reactances of the order of one ohm: comparable rows in the system
        w = float(10**rng.uniform(-1, 1))/L0
        f = w/(2*np.pi)
        rho = area[ax1]/d[ax1]
        I = complex(*rng.normal(size=2))
        P = {"n": n, "d": d, "c": [0.0]*3, "dom": {"a1": [a[0]], "a2": [a[1]], "b1": [b[0]], "b2": [b[1]]},
             "material_def": {"e": LUMP(["a1", "a2", "b1", "b2"])},
             "source_def": {"i": SRC(["a2" if flip else "a1"], "current"), "v": SRC(["a1" if flip else "a2"], "voltage"), "o": SRC(["b1"], "voltage")},
             "param": {"freq": f, "material_val": {"e": {"rho_re": rho, "rho_im": 0.0}},
                       "source_val": {"i": {"I_re": I.real, "I_im": I.imag, "Y_re": 0.0, "Y_im": 0.0}, "v": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}, "o": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
        M0 = model.MU0*K.get(tuple(q-p))[0]/(area[ax1]*area[ax2]) if ax1 == ax2 else 0.0

        def measure(thr, mult):
            s, _ = lib.solve1(ctx, P, gen.tol(integral_simplify=thr, mult_type=mult, condition_options={"check": False}))
            if s is None:
                return None
            v = lib.View(P, s)
            Vc = var(s, "V_c")
            at = lambda vox: Vc[v.c.pos[vox]]
            If = -I if flip else I
            Za = (at(a[0])-at(a[1]))/If
            Mb = (at(b[0])-at(b[1]))/(1j*w*If)
            return Za, Mb
        r = measure(1000.0, str(rng.choice(["fft", "direct"])))
        if r is None:
            return
        Za, Mb = r
        ctx.case({"d": d, "n": n, "offset": q-p, "axes": [ax1, ax2], "freq": f})
        Rb = rho*d[ax1]/area[ax1]
        ctx.close(Za.imag/w, L0, 1e-7, "self partial inductance", scale=L0+1e-9*Rb/w)
        ctx.close(Za.real, Rb, 1e-7, "bar resistance", scale=Rb+1e-3*w*L0)
        ctx.close(Mb, M0, 1e-6, "mutual partial inductance", scale=max(L0, abs(M0)), offset=q-p, d=d)
        if M0:
            noise = model.MU0*cancellation(q-p, d)/(area[ax1]*area[ax2])/abs(M0)
            ctx.close(Mb, M0, 1e-3, "mutual partial inductance (relative)", scale=abs(M0)*max(1.0, noise/1e-3), offset=q-p, d=d)
            ctx.count("parallel")
        else:
            ctx.count("orthogonal")
        # far field
        dist = float(np.linalg.norm((q-p)*np.array(d))/max(d))
        if ax1 == ax2 and dist > 1.5:
            e_prev = None
            for thr in (dist*0.5, dist*1.001):
                if thr < 3 and thr < dist:
                    continue
                rr = measure(thr, "fft")
                if rr is None:
                    continue
                e = abs(rr[1]-M0)/abs(M0)
                if thr >= dist:
                    ctx.expect(e <= max(1e-3, noise), "exact within the simplification distance", error=e, dist=dist, thr=thr)
                    ctx.count("threshold_exact")
                else:
                    ctx.expect(e <= 0.8/dist**2+noise, "far-field error decreases with the distance", error=e, dist=dist, thr=thr, d=d)
                    ctx.counters["worst:farfield_times_dist2"] = max(ctx.counters.get("worst:farfield_times_dist2", 0.0), float(e*dist**2))
                    ctx.count("threshold_far")

    def magnetic(rng, i):
        # driven bar, open bar and a magnetic bar
        d = rand_d(rng)
        n = [int(x) for x in rng.permutation((6, 4, 4) if i % 4 else (24, 3, 3))]
        ax1, ax2, ax3 = [int(x) for x in rng.integers(0, 3, 3)]
        if ax1 == ax3 and rng.random() < 0.8:
            ax3 = (ax1+1+int(rng.integers(2))) % 3
        E = np.eye(3, dtype=int)
        for _ in range(500):
            p, q, r = [rng.integers(0, np.array(n)-E[a]) for a in (ax1, ax2, ax3)]
            a, b, m = bar(n, p, ax1), bar(n, q, ax2), bar(n, r, ax3)
            if not set(a) & set(b) and len(gen.components(n, a+b)) == 2:
                break
        else:
            return
        overlap = bool(set(m) & set(a+b))
        K = model.kernel(d)
        area = np.array([d[1]*d[2], d[0]*d[2], d[0]*d[1]])
        w = float(10**rng.uniform(-1, 1))/(model.MU0*K.get((0, 0, 0))[0]/area[ax1]**2)
        f = w/(2*np.pi)
        rho = area[ax1]/d[ax1]
        chi = float(10**rng.uniform(0, 2))
        dom = {"a1": [a[0]], "a2": [a[1]], "b1": [b[0]], "b2": [b[1]]}
        names = {v[0]: k for k, v in dom.items()}
        mlist = []
        for k, x in enumerate(m):
            if x not in names:
                dom["m%d" % k] = [x]
                names[x] = "m%d" % k
            mlist.append(names[x])
        P = {"n": n, "d": d, "c": [0.0]*3, "dom": dom,
             "material_def": {"e": LUMP(["a1", "a2", "b1", "b2"]), "m": LUMP(mlist, "magnetic")},
             "source_def": {"i": SRC(["a1"], "current"), "v": SRC(["a2"], "voltage"), "o": SRC(["b1"], "voltage")},
             "param": {"freq": f, "material_val": {"e": {"rho_re": rho, "rho_im": 0.0}, "m": {"chi_re": chi, "chi_im": float(rng.uniform(0, 1))}},
                       "source_val": {"i": {"I_re": 1.0, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}, "v": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}, "o": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}}}}
        vol = float(np.prod(d))

        def kcoef(p, ax, r, axm):
            """Magneto-motive force on the magnetic face (r, axm) per current of the electric face (p, ax)."""
            out = 0.0
            J = np.zeros(3); J[ax] = 1.0
            for dm in (0, 1):
                for de in (0, 1):
                    off = (r+dm*E[axm])-(p+de*E[ax])
                    H = np.cross(J, K.get(tuple(off))[1])
                    out += 0.25*H[axm]/(area[axm]*area[ax])
            return out
        ka, kb = kcoef(p, ax1, r, ax3), kcoef(q, ax2, r, ax3)
        ks = 0.05*max(np.max(np.abs(K.get(o)[1])) for o in ((1, 0, 0), (0, 1, 0), (0, 0, 1)))/(area[ax3]*area[ax1])

        def measure(thr, mult):
            s, _ = lib.solve1(ctx, P, gen.tol(integral_simplify=thr, mult_type=mult, condition_options={"check": False}))
            if s is None:
                return None
            v = lib.View(P, s)
            Vm, Q = var(s, "V_m"), var(s, "Q_m")
            pos = v.m.pos
            x = [pos[m[0]], pos[m[1]]]
            F = v.I_fm[0]
            mmf = v.m.R[0]*F-(Vm[x[0]]-Vm[x[1]])
            Vc = var(s, "V_c")
            emf = Vc[v.c.pos[b[0]]]-Vc[v.c.pos[b[1]]]
            return mmf, emf, F, Vm[x], Q[x]*vol
        rr = measure(1000.0, str(rng.choice(["fft", "direct"])))
        if rr is None:
            return
        mmf, emf, F, Vm, q_m = rr
        ctx.case({"d": d, "n": n, "offset_am": r-p, "offset_bm": r-q, "axes": [ax1, ax2, ax3], "freq": f, "overlap": overlap}, ax1 != ax3)
        ctx.close(mmf, ka, 1e-6, "coupling coefficient (magneto-motive force)", scale=max(abs(ka), ks), offset=r-p, axes=[ax1, ax3], d=d)
        M0 = model.MU0*K.get(tuple(q-p))[0]/(area[ax1]*area[ax2]) if ax1 == ax2 else 0.0
        L0 = model.MU0*K.get((0, 0, 0))[0]/area[ax1]**2
        want = 1j*w*(M0+kb*F)
        ctx.close(emf, want, 1e-5, "induced voltage by currents and flux", scale=max(abs(want), 1e-2*w*L0, w*ks*abs(F), 1e5*w*model.MU0*cancellation(q-p, d)/(area[ax1]*area[ax2])), offset=r-q, d=d)
        if ax1 == ax3:
            ctx.close(mmf, 0.0, 1e-6, "no coupling between parallel directions", scale=ks)
        # potential of the two charges of the bar
        if abs(ka) > 1e-3*ks:
            e = E[ax3]
            g = [K.get((0, 0, 0))[0], K.get(tuple(e))[0]]
            Pm = np.array([[g[0], g[1]], [g[1], g[0]]])/(model.MU0*vol**2)
            ctx.close(Vm, -Pm@q_m, 1e-6, "magnetic potential of the charges", scale=lib.amax(Pm@np.abs(q_m)), d=d)
            ctx.count("potential")
        ctx.count("overlap" if overlap else "separate")
        dist = float(np.linalg.norm((np.abs(r-p)-1).clip(0)*np.array(d))/max(d))
        if dist >= 4 and abs(ka) > 1e-3*ks and ax1 != ax3:
            r2 = measure(3.0, "fft")
            if r2:
                far = 1/(4*np.pi*(dist*max(d))**2)*d[ax1]*d[ax3]
                e = abs(r2[0]-ka)/far
                ctx.expect(e <= 1.2/dist**2, "far-field coupling error is bounded", error=e, dist=dist)
                ctx.counters["worst:farfield_coupling_times_dist2"] = max(ctx.counters.get("worst:farfield_coupling_times_dist2", 0.0), float(e*dist**2))
                ctx.count("coupling_far")

    def potential(rng, i):
        # scattered magnetic voxels: potential of all the charges
        P = gen.random_problem(rng, n_mag=2, nmax=(8, 6, 5) if i % 3 else (16, 3, 2))
        P["d"] = rand_d(rng)
        P["param"]["freq"] = 0.0 if i % 2 else 10.0
        s, _ = lib.solve1(ctx, P)
        if s is None:
            return
        v = lib.View(P, s)
        K = model.kernel(P["d"])
        N = len(v.m.vox)
        Pm = np.array([[K.get(tuple(v.m.ijk[a]-v.m.ijk[b]))[0] for b in range(N)] for a in range(N)])/(model.MU0*v.vol**2)
        q = var(s, "Q_m")*v.vol
        ctx.case(gen.describe(P), N > 2 and lib.amax(q) > 0)
        ctx.close(var(s, "V_m"), -Pm@q, 1e-6, "magnetic potential of scattered charges", scale=max(lib.amax(Pm@np.abs(q)), 1e-2*v.scales()["V_m"]))
        ctx.count("potential_voxels", N)

    ctx.ploop("inductance", ctx.n(160, 2000), inductance)
    ctx.ploop("magnetic", ctx.n(120, 1500), magnetic)
    ctx.ploop("potential", ctx.n(40, 400), potential)
    lib.check_convergence_rate(ctx)
