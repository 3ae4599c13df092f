"""C25: impedance matrices from terminal data."""
import copy
import itertools
import numpy as np
import pypeec
from pypeec.utils import matrix
import gen, lib

RULE = ("random symmetric complex matrices and operating points (minimal, redundant, insufficient, rank-deficient, inconsistent), matrices invariant under generated permutation groups, "
        "synthetic and real solver solutions; the matrix is compared with the known one, derived values with their definitions; non-trivial: at least two terminals")
ASSUMPTIONS = ["currents with condition number below 1e3", "the couplings are compared where the diagonal products are positive", "no inductance is defined at DC"]


def rand_z(rng, n, freq):
    scale = 10**rng.uniform(-4, 2)
    kind = int(rng.integers(3))
    if kind == 0:
        # passive: positive definite resistance and inductance matrices
        a, b = rng.normal(size=(n, n)), rng.normal(size=(n, n))
        Z = scale*(a@a.T+0.1*np.eye(n))+1j*scale*(b@b.T+0.1*np.eye(n))*(1 if freq else 0)
    else:
        a, b = rng.normal(size=(n, n)), rng.normal(size=(n, n))
        Z = scale*((a+a.T)+1j*(b+b.T)*(1 if freq else 0))
        if kind == 1:
            Z = Z+np.diag(scale*rng.uniform(1, 5, n)*(1+1j*(1 if freq else 0)))
    return Z


def rand_i(rng, n, m):
    """Currents of full row rank with a moderate condition number."""
    while True:
        kind = int(rng.integers(3))
        if kind == 0 and m >= n:
            I = np.hstack([np.eye(n), rng.normal(size=(n, m-n))]).astype(complex)[:, rng.permutation(m)]
        else:
            I = rng.normal(size=(n, m))+(1j*rng.normal(size=(n, m)) if kind == 1 else 0j)
        if np.linalg.cond(I) < 1e3:
            # any phase and any magnitude of the excitation, also purely imaginary currents
            I = I*complex(rng.choice([1, 1, 1j, -1j, 1+1j, 1-1j, -1+1j, np.exp(2j*np.pi*rng.random())]))
            return I*10**(rng.uniform(-3, 3) if rng.random() < 0.6 else rng.uniform(-14, 8))


def rand_levels(rng, n):
    """Magnitudes of the terminals of a transformer: windings with few and with many turns."""
    return 10**rng.uniform(-(7 if rng.random() < 0.5 else 3), 0, n)


def check_matrix(ctx, out, Z, n, m, freq, tol=1e-9):
    w = 2*np.pi*freq
    ctx.close(out["Z_mat"], Z, tol, "recovered impedance matrix")
    Zg = np.asarray(out["Z_mat"])
    ctx.close(Zg, Zg.T, 1e-9, "the matrix is symmetric")
    ctx.expect(out["n_winding"] == n and out["n_solution"] == m and out["freq"] == freq, "sizes and frequency are returned")
    ctx.close(out["R_mat"], Zg.real, 1e-12, "resistance is the real part")
    if freq == 0:
        ctx.expect(np.all(np.isnan(out["L_mat"])) and np.all(np.isnan(out["Q_mat"])) and np.all(np.isnan(out["k_L_mat"])), "no inductance at DC")
    else:
        ctx.close(out["L_mat"], Zg.imag/w, 1e-12, "inductance is reactance over angular frequency")
        ctx.close(out["Q_mat"], Zg.imag/Zg.real, 1e-10, "quality factor is reactance over resistance", scale=None)
    for k, X in (("k_R_mat", Zg.real), ("k_L_mat", Zg.imag/w if freq else None)):
        if X is None:
            continue
        p = np.outer(np.diag(X), np.diag(X))
        ok = p > 0
        got = np.asarray(out[k])
        ctx.expect(got.shape == X.shape, "coupling shape")
        ctx.close(got[ok], (X/np.sqrt(np.where(ok, p, 1.0)))[ok], 1e-10, "coupling is normalised by the geometric mean: "+k)
        if np.all(np.linalg.eigvalsh((X+X.T)/2) > 0):
            ctx.expect(np.all(np.abs(got) <= 1+1e-9), "couplings of a positive matrix are bounded by one")
            ctx.close(np.diag(got), np.ones(n), 1e-12, "self coupling is one")


def group(rng, n):
    """A list of lists of permutations (each with the identity) and a projector to invariant matrices."""
    levels = []
    many = rng.random() < 0.3
    for _ in range(int(rng.integers(3, 6)) if many else int(rng.integers(1, 3))):
        lst = [list(range(n))]
        for _ in range(1 if many else int(rng.integers(1, 3))):
            lst.append([int(x) for x in rng.permutation(n)])
        levels.append(lst)
    perms = {tuple(range(n))}
    gens = [tuple(p) for lev in levels for p in lev]
    while True:
        new = {tuple(a[k] for k in b) for a in perms for b in gens} | perms
        if new == perms:
            break
        perms = new
    return levels, sorted(perms)


def run(ctx):
    def known(rng, i):
        n = int(rng.integers(1, 7)) if i % 12 else int(rng.integers(7, 15))
        m = n+int(rng.integers(0, 5))
        freq = 0.0 if rng.random() < 0.2 else float(10**rng.uniform(0, 7))
        Z, I = rand_z(rng, n, freq), rand_i(rng, n, m)
        V = Z@I
        t = {"n_solution": m, "n_winding": n, "freq": freq, "V_mat": V, "I_mat": I}
        t0 = copy.deepcopy(t)
        ctx.case({"n": n, "m": m, "freq": freq, "Z": Z, "I": I}, n >= 2)
        out = ctx.call(matrix.get_matrix, t)
        check_matrix(ctx, out, Z, n, m, freq)
        ctx.expect(all(np.array_equal(t[k], t0[k]) for k in t0), "arguments are not modified")
        # order of terminals and of operating points
        p, q = rng.permutation(n), rng.permutation(m)
        out2 = ctx.call(matrix.get_matrix, {**t, "V_mat": V[p][:, q], "I_mat": I[p][:, q]})
        ctx.close(out2["Z_mat"], Z[np.ix_(p, p)], 1e-9, "matrix follows the order of the terminals")
        # the symmetric least-squares solution for inconsistent data
        E = V+0.05*np.max(np.abs(V))*(rng.normal(size=V.shape)+1j*rng.normal(size=V.shape))
        Zn = np.asarray(ctx.call(matrix.get_matrix, {**t, "V_mat": E})["Z_mat"])
        R = Zn@I-E
        G = R@I.conj().T
        ctx.close(G+G.T, np.zeros((n, n)), 1e-9, "least-squares solution over the symmetric matrices", scale=np.max(np.abs(E))*np.max(np.abs(I))*m)
        # rejections
        bad = {"transposed": {**t, "V_mat": V.T, "I_mat": I.T} if n != m else None,
               "wrong count": {**t, "n_solution": m+1}, "wrong terminals": {**t, "n_winding": n+1},
               "voltage shape": {**t, "V_mat": V[:, :-1]} , "current shape": {**t, "I_mat": I[:, :-1]}}
        if n >= 2:
            k = int(rng.integers(1, n))
            J = rand_i(rng, n, n)[:, :k]
            bad["too few points"] = {**t, "n_solution": k, "I_mat": J, "V_mat": Z@J}
            J = J@rng.normal(size=(k, m))
            bad["dependent points"] = {**t, "I_mat": J, "V_mat": Z@J}
        J = np.zeros((n, m))
        bad["no current"] = {**t, "I_mat": J, "V_mat": J}
        for what, b in bad.items():
            if b is not None:
                ctx.raises(matrix.get_matrix, b, what="terminal data: "+what)

    # windings of very different turns and operating points of very different levels
    def scaled(rng, i):
        n = int(rng.integers(2, 6))
        m = n+int(rng.integers(0, 4))
        freq = float(10**rng.uniform(0, 7))
        t = rand_levels(rng, n)
        lev = 10**rng.uniform(-3, 3)*10**rng.uniform(0, 2.5, m) if i % 2 else np.full(m, 10**rng.uniform(-14, 8))
        if i % 2:
            t = np.ones(n)
        # the impedances scale with the turns, the currents with their inverse
        Z0, I0 = rand_z(rng, n, freq), rng.normal(size=(n, m))+1j*rng.normal(size=(n, m))
        if np.linalg.cond(I0) > 1e2:
            I0[:, :n] += 3*np.eye(n)*np.max(np.abs(I0))
        Z, I = Z0*np.outer(1/t, 1/t), I0*lev
        if i % 2 == 0 and rng.random() < 0.5:
            I = I*t[:, None]
        V = Z@I
        ctx.case({"n": n, "m": m, "turns": 1/t, "levels": lev, "Z": Z, "I": I})
        out = ctx.call(matrix.get_matrix, {"n_solution": m, "n_winding": n, "freq": freq, "V_mat": V, "I_mat": I})
        # the error bound of a least-squares problem: condition number times the rounding
        tol = 1e-9+1e-13*np.linalg.cond(I)
        ctx.close(np.asarray(out["Z_mat"]), Z, tol, "recovered impedance matrix (levels)")
        ctx.count("condition_1e%d" % int(np.log10(np.linalg.cond(I))))

    def symmetry(rng, i):
        n = int(rng.integers(2, 6))
        levels, perms = group(rng, n)
        freq = float(10**rng.uniform(0, 7))
        Z0 = rand_z(rng, n, freq)
        # invariance of the matrix under all permutations of the group
        Z = np.mean([Z0[np.ix_(p, p)] for p in perms], axis=0)
        m = int(rng.integers(1, n+1))
        I = rng.normal(size=(n, m))+1j*rng.normal(size=(n, m))
        t = {"n_solution": m, "n_winding": n, "freq": freq, "V_mat": Z@I, "I_mat": I}
        t0 = copy.deepcopy(t)
        ctx.case({"n": n, "levels": levels, "I": I, "Z": Z}, len(perms) > 1)
        out = ctx.call(matrix.get_symmetry, t, levels)
        ctx.expect(all(np.array_equal(t[k], t0[k]) for k in t0), "arguments are not modified (symmetry)")
        mm = m*int(np.prod([len(x) for x in levels]))
        ctx.expect(out["n_solution"] == mm and out["n_winding"] == n and out["freq"] == freq, "sizes of the expanded data", got=out["n_solution"], want=mm)
        ctx.expect(out["I_mat"].shape == (n, mm) and out["V_mat"].shape == (n, mm), "shape of the expanded data")
        ctx.close(Z@out["I_mat"], out["V_mat"], 1e-9, "expanded points obey the invariant matrix")
        # every expanded point is a permuted original point, and all are present
        want = set()
        for combo in itertools.product(*levels):
            A = I
            for p in combo:
                A = A[p]
            for k in range(m):
                want.add(tuple(np.round(A[:, k], 9)))
        got = {tuple(np.round(out["I_mat"][:, k], 9)) for k in range(mm)}
        ctx.expect(want == got, "expanded points are the permuted points")
        if np.linalg.matrix_rank(out["I_mat"]) == n and np.linalg.cond(out["I_mat"]) < 1e3:
            ctx.count("symmetry_full_rank")
            check_matrix(ctx, ctx.call(matrix.get_matrix, out), Z, n, mm, freq)
        ctx.raises(matrix.get_symmetry, {**t, "I_mat": I[:-1]}, levels, what="symmetry: current shape")
        ctx.raises(matrix.get_symmetry, {**t, "n_solution": m+1}, levels, what="symmetry: number of points")

    def extract(rng, i):
        n, m = (int(rng.integers(1, 5)), int(rng.integers(1, 6))) if i % 10 else (int(rng.integers(5, 20)), int(rng.integers(10, 40)))
        names = ["t%d" % k for k in rng.permutation(2*n+2)]
        term = [{"src": names[2*k], "sink": names[2*k+1]} for k in range(n)]
        freq = 0.0 if rng.random() < 0.2 else float(10**rng.uniform(0, 7))
        c = lambda: complex(rng.normal(), rng.normal())
        sweeps = {"w%d" % k: {"freq": freq, "source": {x: {"V": c(), "I": c(), "S": c()} for x in names}} for k in range(m+1)}
        order = [str(x) for x in rng.permutation(list(sweeps))[:m]]
        if i % 5 == 2:
            # the same sweep or terminal several times
            order += [str(x) for x in rng.choice(order, int(rng.integers(1, 3)))]
            order = [str(x) for x in rng.permutation(order)]
            m = len(order)
            term.append(dict(term[int(rng.integers(n))]))
            n += 1
        sol = {"data_init": {}, "data_sweep": sweeps}
        ctx.case({"n": n, "m": m, "order": order, "terminals": term}, n >= 2)
        sol0 = copy.deepcopy(sol)
        out = ctx.call(matrix.get_extract, sol, order, term)
        ctx.expect(sol == sol0, "solution is not modified")
        V = np.array([[sweeps[w]["source"][t["src"]]["V"]-sweeps[w]["source"][t["sink"]]["V"] for w in order] for t in term])
        I = np.array([[(sweeps[w]["source"][t["src"]]["I"]-sweeps[w]["source"][t["sink"]]["I"])/2 for w in order] for t in term])
        ctx.close(out["V_mat"], V, 1e-12, "terminal voltages")
        ctx.close(out["I_mat"], I, 1e-12, "terminal currents")
        ctx.expect(out["n_winding"] == n and out["n_solution"] == m and abs(out["freq"]-freq) <= 1e-9*freq, "sizes of the terminal data")
        if len(set(order)) >= 2:
            bad = copy.deepcopy(sol)
            bad["data_sweep"][order[int(rng.integers(m))]]["freq"] = freq*1.5+1.0
            ctx.raises(matrix.get_extract, bad, order, term, what="sweeps at different frequencies")
        ctx.raises(matrix.get_extract, sol, order+["unknown"], term, what="unknown sweep")
        ctx.raises(matrix.get_extract, sol, order, term+[{"src": "unknown", "sink": names[0]}], what="unknown terminal")

    def solver(rng, i):
        # two or three separate conductors with two terminals each, driven through generated sweeps
        n = int(rng.integers(2, 4))
        L = int(rng.integers(3, 6))
        grid = [L, 2*n, 2]
        dom, mat, src = {}, {"m": {"domain_list": [], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}}, {}
        from model import lin
        for k in range(n):
            row = [lin(grid, (x, 2*k, 0)) for x in range(L)]
            if rng.random() < 0.5:
                row += [lin(grid, (x, 2*k, 1)) for x in range(L)]
            ends = {"a": [v for v in row if v % L == 0], "b": [v for v in row if v % L == L-1]}
            dom.update({"c%d" % k: [v for v in row if v not in ends["a"]+ends["b"]], "a%d" % k: ends["a"], "b%d" % k: ends["b"]})
            mat["m"]["domain_list"] += ["c%d" % k, "a%d" % k, "b%d" % k]
            for t, typ in (("a", "current"), ("b", "voltage")):
                src["%s%d" % (t, k)] = {"domain_list": ["%s%d" % (t, k)], "source_type": typ, "var_type": "lumped"}
        freq = 0.0 if rng.random() < 0.3 else float(10**rng.uniform(3, 7))
        sweeps, J = {}, rand_i(rng, n, n+1)
        J = J/np.max(np.abs(J))
        for q in range(n+1):
            val = {}
            for k in range(n):
                val["a%d" % k] = {"I_re": float(J[k, q].real), "I_im": float(J[k, q].imag), "Y_re": 0.0, "Y_im": 0.0}
                val["b%d" % k] = {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}
            sweeps["q%d" % q] = {"init": None, "param": {"freq": freq, "material_val": {"m": {"rho_re": 1e-8, "rho_im": 0.0}}, "source_val": val}}
        P = {"n": grid, "d": [1e-3, 1.2e-3, 0.8e-3], "c": [0.0]*3, "dom": dom, "material_def": mat, "source_def": src, "param": sweeps["q0"]["param"]}
        ctx.case({"n": n, "freq": freq, "J": J, "grid": grid}, True)
        sol = lib.solve(ctx, P, gen.tol(), sweeps)
        term = [{"src": "a%d" % k, "sink": "b%d" % k} for k in range(n)]
        t = ctx.call(matrix.get_extract, sol, list(sweeps), term)
        ctx.close(t["I_mat"], J, 1e-6, "extracted currents are the impressed currents", scale=1.0)
        if not all(s["has_converged"] for s in sol["data_sweep"].values()):
            ctx.count("not_converged")
            return
        out = ctx.call(matrix.get_matrix, t)
        ctx.close(out["Z_mat"]@J, t["V_mat"], 1e-5, "one symmetric matrix explains all solver sweeps")
        ev = np.linalg.eigvalsh(out["R_mat"])
        ctx.expect(ev[0] > 0, "resistance matrix is positive")
        if freq:
            ctx.expect(np.linalg.eigvalsh(out["L_mat"])[0] > 0, "inductance matrix is positive")

    ctx.ploop("known", ctx.n(600, 8000), known)
    ctx.ploop("scaled", ctx.n(400, 5000), scaled)
    ctx.ploop("symmetry", ctx.n(400, 5000), symmetry)
    ctx.ploop("extract", ctx.n(300, 4000), extract)
    ctx.ploop("solver", ctx.n(16, 120), solver)
