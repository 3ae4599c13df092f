"""C08: linearity in the sources and reciprocity between ports."""
import numpy as np
import pypeec
import gen, lib, model
from lib import var

RULE = ("(a) random problems solved for two excitations and a complex combination of them; (b) complex scaling; (c) random multi-terminal structures (grounded conductors, current or "
        "voltage ports, with/without internal elements, magnetic materials) whose full port matrix is measured, compared with its transpose and checked for a non-negative "
        "definite real part; non-trivial: matrix with at least two ports / currents above scale")
ASSUMPTIONS = ["tolerance 1e-6 of the physical scale (solver tolerance 1e-11)"]
TOL = 1e-6
LIN = ("V_c", "J_c", "S_c", "V_m", "B_m", "Q_m")


def excite(P, x):
    """Problem with other excitations: x maps source -> complex scalar or vector."""
    Q = lib.clone(P)
    for t, v in x.items():
        a = "I" if P["source_def"][t]["source_type"] == "current" else "V"
        v = np.asarray(v)
        Q["param"]["source_val"][t][a+"_re"] = np.real(v).tolist()
        Q["param"]["source_val"][t][a+"_im"] = np.imag(v).tolist()
    return Q


def excitation(P):
    out = {}
    for t, v in P["param"]["source_val"].items():
        a = "I" if P["source_def"][t]["source_type"] == "current" else "V"
        out[t] = np.asarray(v[a+"_re"])+1j*np.asarray(v[a+"_im"])
    return out


def run(ctx):
    def superpose(rng, i):
        kw = dict(n_mag=1) if i % 2 else {}
        P = lib.big(rng, max_vox=50, **kw) if i % 5 == 0 else gen.random_problem(rng, **kw)
        pts = lib.outside_points(rng, P, 2)
        x1 = excitation(P)
        x2 = {t: (rng.normal(size=np.shape(v))+1j*rng.normal(size=np.shape(v)))*(np.max(np.abs(v)) or 1.0) for t, v in x1.items()}
        a, b = [complex(*rng.normal(size=2)) for _ in range(2)]
        x3 = {t: a*x1[t]+b*x2[t] for t in x1}
        k = complex(*rng.normal(size=2))*float(10**(rng.uniform(-3, 3) if rng.random() < 0.5 else rng.uniform(-13, 9)))
        if rng.random() < 0.25:
            # exact quarter turns and sign changes of real excitations
            x1, k = {t: np.real(v)+0j for t, v in x1.items()}, complex(rng.choice([1j, -1j, -1]))
            x3 = {t: a*x1[t]+b*x2[t] for t in x1}
        probs = [excite(P, x) for x in (x1, x2, x3, {t: k*v for t, v in x1.items()})]
        vx = lib.mesh(ctx, P, pts)
        sw = {"a": {"init": None, "param": probs[0]["param"]}, "b": {"init": None, "param": probs[1]["param"]}, "c": {"init": None, "param": probs[2]["param"]}, "d": {"init": None, "param": probs[3]["param"]}}
        r = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), lib.cap(P, gen.tol()))["data_sweep"]
        ctx.count("solves", 4)
        bad = sum(not s["has_converged"] for s in r.values())
        if bad:
            ctx.count("not_converged", bad)
            ctx.case(gen.describe(P), False)
            return
        views = [lib.View(q, r[t]) for q, t in zip(probs, "abcd")]
        s1, s2 = views[0].scales(*views), views[1].scales(*views)
        for f in LIN:
            ctx.close(var(r["c"], f), a*var(r["a"], f)+b*var(r["b"], f), TOL, "superposition of "+f, scale=abs(a)*s1[f]+abs(b)*s2[f])
            ctx.close(var(r["d"], f), k*var(r["a"], f), TOL, "scaling of "+f, scale=abs(k)*s1[f])
        H = lambda t: var(r[t], "H_p")
        ctx.close(H("c"), a*H("a")+b*H("b"), TOL, "superposition of the cloud field", scale=abs(a)*s1["H_p"]+abs(b)*s2["H_p"])
        ctx.close(H("d"), k*H("a"), TOL, "scaling of the cloud field", scale=abs(k)*s1["H_p"])
        for t in P["source_def"]:
            for q in "VI":
                ctx.close(r["c"]["source"][t][q], a*r["a"]["source"][t][q]+b*r["b"]["source"][t][q], TOL, "superposition of the terminal "+q, scale=abs(a)*s1[q]+abs(b)*s2[q])
                ctx.close(r["d"]["source"][t][q], k*r["a"]["source"][t][q], TOL, "scaling of the terminal "+q, scale=abs(k)*s1[q])
            ctx.close(r["d"]["source"][t]["S"], abs(k)**2*r["a"]["source"][t]["S"], TOL, "quadratic scaling of S", scale=abs(k)**2*s1["S"])
        for q in lib.CMP_INT:
            ctx.close(r["d"]["integral"][q], abs(k)**2*r["a"]["integral"][q], TOL, "quadratic scaling of "+q, scale=abs(k)**2*s1[q])
        for f in ("P_c", "P_m"):
            ctx.close(var(r["d"], f), abs(k)**2*var(r["a"], f), TOL, "quadratic scaling of "+f, scale=abs(k)**2*s1[f])
        ctx.case({**gen.describe(P), "a": a, "b": b, "k": k}, lib.amax(var(r["c"], "J_c")) > 1e-6*(abs(a)*s1["J_c"]+abs(b)*s2["J_c"]))

    def ports(rng, i):
        # one grounded conductor per component; the other domains are lumped ports
        kind = "current" if i % 2 == 0 else "voltage"
        kw = dict(n_cond=int(rng.integers(1, 4)), n_mag=int(i % 3 == 1), nmax=(6, 5, 4))
        while True:
            P = gen.random_problem(rng, **kw)
            # regroup the sources: every conductor domain is a port, the first one of a conductor is the ground
            comps = gen.components(P["n"], [q for t, x in P["dom"].items() if t.startswith("c") for q in x])
            src, n_port = {}, 0
            for ci, comp in enumerate(comps):
                names = [t for t, x in P["dom"].items() if t.startswith("c") and set(x) <= set(comp)]
                rng.shuffle(names)
                g = int(rng.integers(2, max(3, len(names)+1)))
                for k, t in enumerate(names[:g]):
                    if k == 0:
                        src["gnd%d" % ci] = {"domain_list": [t], "source_type": "voltage", "var_type": "lumped"}
                    else:
                        src["p%d" % n_port] = {"domain_list": [t], "source_type": kind, "var_type": "lumped"}
                        n_port += 1
            if n_port >= 2:
                break
        P["source_def"] = src
        elements = rng.random() < 0.4
        R = 1e-7/min(P["d"])
        base = {}
        for t, sd in src.items():
            if sd["source_type"] == "current":
                y = float(rng.uniform(0, 1)/R) if elements else 0.0
                base[t] = {"I_re": 0.0, "I_im": 0.0, "Y_re": y, "Y_im": 0.3*y}
            else:
                z = float(rng.uniform(0, 1)*R) if elements else 0.0
                base[t] = {"V_re": 0.0, "V_im": 0.0, "Z_re": z, "Z_im": 0.5*z}
        P["param"]["source_val"] = base
        pts = ["p%d" % k for k in range(n_port)]
        sw = {}
        a = "I" if kind == "current" else "V"
        amp = 1.0 if kind == "current" else R
        for p in pts:
            q = lib.clone(base)
            q[p][a+"_re"] = amp
            sw[p] = {"init": None, "param": {**P["param"], "source_val": q}}
        vx = lib.mesh(ctx, P)
        r = ctx.call(pypeec.run_solver_data, vx, gen.data_problem(P, sw), gen.tol())["data_sweep"]
        ctx.count("solves", len(pts))
        bad = sum(not s["has_converged"] for s in r.values())
        if bad:
            ctx.count("not_converged", bad)
            ctx.case(gen.describe(P), False)
            return
        o = "V" if kind == "current" else "I"
        M = np.array([[r[q]["source"][p][o] for q in pts] for p in pts])/amp
        sc = max(lib.View({**P, "param": sw[q]["param"]}, r[q]).scales()[o] for q in pts)/amp
        sc = min(sc, max(np.max(np.abs(M)), 1e-6*sc))
        ctx.close(M, M.T, 1e-5, "%s-port matrix is symmetric" % kind, scale=sc)
        H = 0.5*(M.real+M.real.T)
        ev = np.linalg.eigvalsh(H)
        ctx.expect(ev[0] >= -1e-6*np.max(np.abs(M)), "the real part of the %s-port matrix is non-negative definite" % kind, eig=ev)
        ctx.case({**gen.describe(P), "kind": kind, "elements": elements}, np.max(np.abs(M-np.diag(np.diag(M)))) > 1e-6*np.max(np.abs(M)))
        ctx.count("ports_%s_%d" % (kind, min(len(pts), 4)))
        if n_port and any(t.startswith("m") for t in P["dom"]):
            ctx.count("ports_magnetic")

    ctx.ploop("superposition", ctx.n(80, 1500), superpose)
    ctx.ploop("ports", ctx.n(80, 1500), ports)
    lib.check_convergence_rate(ctx)
