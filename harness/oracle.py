"""Comparison helpers with physically motivated scales."""
import numpy as np
import model

VARS_C = ("V_c", "J_c", "P_c", "S_c")
VARS_M = ("V_m", "B_m", "P_m", "Q_m")


def scales(P, X):
    """Magnitudes against which rounding/tolerance errors are measured."""
    S = X["S"]
    c, m = S["c"], S["m"]
    w = 2*np.pi*S["freq"]
    d = np.array(P["d"], float)
    vol = np.prod(d)
    fp = 1.0 if w == 0 else 0.5
    amax = lambda x: float(np.max(np.abs(x))) if np.size(x) else 0.0
    Ic, Is, V = amax(X["I_fc"]), amax(X["I_src"]), amax(X["V_c"])
    Z = np.abs(c.R)+w*np.abs(np.diag(S["L"])) if len(c.faces) else np.array([1.0])
    zmin, zmax = float(np.min(Z)), float(np.max(Z))
    I = max(Ic, Is, V/zmax)
    for (tag, typ, pos, x, y) in S["src"]:
        I = max(I, abs(x) if typ == "current" else 0.0)
        V = max(V, abs(x) if typ == "voltage" else 0.0)
    V = max(V, I*zmax)
    rm = float(np.min(np.abs(m.R))) if len(m.faces) else 1.0
    kk = float(np.max(np.abs(S["Km"]))) if np.size(S["Km"]) else 0.0
    if np.size(S["Km"]):
        # typical magnitude, for structures where the coupling vanishes by symmetry
        amin = np.sort(c.area)[:2]
        kk = max(kk, 0.01*max(np.max(np.abs(model.kernel(d).get(o)[1])) for o in ((1, 0, 0), (0, 1, 0), (0, 0, 1)))/(amin[0]*amin[1]))
    F = max(amax(X["I_fm"]), 0.0)
    Vm = max(amax(X["V_m"]), kk*I)
    if len(m.faces):
        F = max(F, Vm/float(np.max(np.abs(m.R))))
    amin_c, amin_m = np.min(c.area), np.min(m.area)
    Rmax = float(np.max(np.abs(c.R))) if len(c.faces) else 0.0
    Rm_max = float(np.max(np.abs(m.R))) if len(m.faces) else 0.0
    Pe = fp*Rmax*I*I
    Pm = fp*w*Rm_max*F*F
    Lmax = float(np.max(np.abs(S["L"]))) if np.size(S["L"]) else 0.0
    We, Wm = Lmax*I*I, kk*I*F
    return dict(I=I, V=V, V_c=V, J_c=I/amin_c, P_c=Pe/vol, S_c=I/vol, V_m=Vm, B_m=F/amin_m, P_m=Pm/vol, Q_m=F/vol,
                P_electric=Pe, P_magnetic=Pm, P_total=Pe+Pm, W_electric=We, W_magnetic=Wm, W_total=We+Wm, S=V*I, F=F)


def var(s, k):
    return np.asarray(s["var"][k]["var"])


def nontrivial(P, X):
    """Currents really flow: the solution is not the trivial equilibrium."""
    sc = scales(P, X)
    return bool(len(X["I_fc"]) and np.max(np.abs(X["I_fc"])) > 1e-3*sc["I"])


def compare(ctx, P, s, X, tol, sc=None, tag=""):
    """One sweep of the solver output against the reference."""
    sc = sc or scales(P, X)
    import lib
    tol = max(tol, lib.noise(s, sc))
    for k in VARS_C+VARS_M:
        a, b = var(s, k), X[k]
        ctx.close(a, b, tol, "%sfield %s" % (tag, k), scale=sc[k])
    for k in ("P_electric", "P_magnetic", "P_total", "W_electric", "W_magnetic", "W_total"):
        ctx.close(s["integral"][k], X[k], tol, "%sintegral %s" % (tag, k), scale=sc[k] or 1e-300)
    for t, v in X["source"].items():
        ctx.close(s["source"][t]["V"], v["V"], tol, tag+"source V", scale=sc["V"], source=t)
        ctx.close(s["source"][t]["I"], v["I"], tol, tag+"source I", scale=sc["I"], source=t)
        ctx.close(s["source"][t]["S"], v["S"], tol, tag+"source S", scale=sc["S"], source=t)
    ctx.close(s["integral"]["S_total"], X["S_total"], tol, tag+"integral S_total", scale=sc["S"])
    for t, v in X["material"].items():
        for k in v:
            ctx.close(s["material"][t][k], v[k], tol, tag+"material "+k, scale=sc[k] or 1e-300, material=t)
