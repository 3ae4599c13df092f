"""C21: calls do not modify their arguments and do not depend on the history."""
import copy
import os
import pickle
import traceback
import numpy as np
import pyvista as pv
import plotlib
import pypeec
from pypeec.utils import fourier, matrix, voxel
import gen, lib, meshlib, reslib
from core import jsonable
from checks.c20 import bases, geom_rules, solver_rules
from checks.c25 import rand_z, rand_i, group
from checks.c29 import viewer_case, plotter_case

RULE = ("random pools of mesher, solver (different FFT, operator, preconditioner, coupling, tolerance and condition options), viewer, plotter and utility calls and of failing calls; every call is run once in a fresh process and then several times in random "
        "histories in one process (with files rewritten and the global random state changed in between); results and recorded plots are compared, and exact snapshots of all arguments and earlier results are compared before and after each call "
        "and at the end; non-trivial: a history of at least four different calls")
ASSUMPTIONS = ["timing fields, condition estimates and random conflict resolution are excluded", "numbers are compared to 1e-9 of the largest value of their array", "a failing call is compared by the type of the exception",
               "fresh processes are forks of a process that has imported the modules but has called nothing"]


def forked(ctx, fn):
    """Result of fn() in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked child died")
    kind, out = pickle.loads(data)
    if kind == "err":
        raise RuntimeError(out)
    return out


class Job:
    """One call: fn(*args, **kw), files to be written before."""
    def __init__(self, name, fn, args, kw=None, files=None, plot=False, readonly=False):
        self.name, self.fn, self.args, self.kw, self.files, self.plot = name, fn, args, kw or {}, files or {}, plot
        if readonly:
            reslib.freeze(self.args)

    def run(self):
        for path, content in self.files.items():
            with open(path, "wb") as f:
                f.write(content)
        plotlib.take()
        try:
            with np.errstate(all="ignore"):
                res = self.fn(*self.args, **self.kw)
            out = ("ok", res)
        except Exception as ex:
            out = ("exc", type(ex).__name__, str(ex)[:200])
        ev = plotlib.take()
        if self.plot:
            out = out+(reslib.plot_signature(ev),)
        plotlib.release(ev)
        return out


def same(ref, got):
    if ref[0] != got[0]:
        return "outcome: %s and %s" % (str(ref[:3])[:300] if ref[0] == "exc" else ref[0], str(got[:3])[:300] if got[0] == "exc" else got[0])
    if ref[0] == "exc":
        return None if ref[1] == got[1] else "exception %s and %s" % (ref[1:3], got[1:3])
    for a, b in zip(ref[1:], got[1:]):
        d = reslib.diff(a, b)
        if d:
            return d
    return None


def solver_options(rng):
    """Options with visible effects: few iterations, different preconditioners, operators and limits."""
    it = {"solver": str(rng.choice(["gmres", "gmres", "gcrot"])), "rel_tol": float(rng.choice([1e-2, 1e-4, 1e-11])), "abs_tol": 1e-30, "n_inner": int(rng.integers(1, 6)), "n_outer": int(rng.integers(1, 4))}
    tight = {"solver": "gmres", "rel_tol": 1e-11, "abs_tol": 1e-30, "n_inner": 60, "n_outer": 3}
    it = tight if rng.random() < 0.4 else it
    return gen.tol(
        integral_simplify=float(rng.choice([1.0, 1.6, 2.5, 1000.0])), biot_savart=str(rng.choice(["face", "voxel"])), mult_type=str(rng.choice(["fft", "fft", "direct"])),
        fft_options={"library": str(rng.choice(["SciPy", "NumPy"])), "matrix_split": bool(rng.integers(2)), "scipy_worker": int(rng.choice([0, 1, 2, -1]))},
        solver_options={"coupling": str(rng.choice(["direct", "segregated"])), "tolerance_options": {"ignore_status": bool(rng.integers(2)), "ignore_res": bool(rng.integers(2)), "rel_tol": float(rng.choice([1e-8, 1e-3, 1.0]))},
                        "power_options": {"stop": bool(rng.random() < 0.3), "n_min": int(rng.integers(1, 4)), "n_cmp": int(rng.integers(1, 3)), "rel_tol": float(rng.choice([1e-1, 1e-3]))}, "direct_options": it,
                        "segregated_options": {"n_min": int(rng.integers(1, 3)), "n_max": int(rng.choice([3, 6, 20])), "rel_tol": float(rng.choice([1e-2, 1e-9])), "relax_electric": float(rng.choice([1.0, 0.7])), "relax_magnetic": float(rng.choice([1.0, 0.6])),
                                               "iter_electric_options": it, "iter_magnetic_options": tight if rng.random() < 0.5 else it}},
        condition_options={"check": bool(rng.integers(2)), "tolerance_electric": float(rng.choice([1e-6, 1e80])), "tolerance_magnetic": float(rng.choice([1e-6, 1e80]))})


class Direct:
    """call() of the harness context, without recording."""
    only = None

    def __init__(self, scratch):
        self.scratch = scratch

    def call(self, fn, *a, **k):
        return fn(*a, **k)

    def count(self, *a):
        pass


def image_bytes(rng, size):
    import io
    import PIL.Image
    img = np.zeros((size[1], size[0], 4), np.uint8)
    img[...] = [255, 255, 255, 255]
    img[rng.random((size[1], size[0])) < 0.5] = [255, 0, 0, 255]
    img[0, 0], img[-1, -1] = [255, 0, 0, 255], [0, 0, 255, 255]
    f = io.BytesIO()
    PIL.Image.fromarray(img, "RGBA").save(f, "PNG")
    return f.getvalue()


def mesher_jobs(rng, root, k):
    from checks import c13, c15
    out = []
    kind, g = bases(rng, root, k)
    g["data_conflict"]["resolve_random"] = False
    out.append(Job("mesh:"+kind, pypeec.run_mesher_data, (g,)))
    rules = geom_rules(rng, kind, g)
    what, bad = rules[int(rng.integers(len(rules)))]
    out.append(Job("bad mesh:"+what, pypeec.run_mesher_data, (bad,)))
    # the same file name with two contents
    path = os.path.join(root, "same%d.png" % k)
    size = [int(x) for x in rng.integers(2, 6, 2)]
    gp = c13.geometry([0.1, 0.1, 0.2], [0.0, 0.0, 0.0], size, {"a": [[255, 0, 0, 255]], "b": [[0, 0, 255, 255]]}, [{"n_layer": 1, "filename_list": [path]}])
    for t in "AB":
        out.append(Job("png "+t, pypeec.run_mesher_data, (copy.deepcopy(gp),), files={path: image_bytes(rng, size)}))
    if rng.random() < 0.4:
        spath = os.path.join(root, "same%d.stl" % k)
        gs = c15.geometry([0.25, 0.25, 0.25], None, None, {"a": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": spath}]})
        gs["data_voxelize"]["param"].update({"xyz_min": None, "xyz_max": None})
        for t, b in (("A", (0, 1, 0, 1, 0, 1)), ("B", (0, 2, 0, 1, 0, 0.5))):
            pv.Box(b).triangulate().save(spath)
            with open(spath, "rb") as f:
                out.append(Job("stl "+t, pypeec.run_mesher_data, (copy.deepcopy(gs),), files={spath: f.read()}))
    n = meshlib.rand_grid(rng, hi=5, vmax=60)
    out.append(Job("mesh:random", pypeec.run_mesher_data, (gen.geometry(n, gen.rand_size(rng), [0.0, 0.0, 0.0], meshlib.rand_domains(rng, n), [[50.0, 0.0, 0.0]],
               data_resampling={"use_reduce": bool(rng.integers(2)), "use_resample": True, "resampling_factor": [1, 2, 1]}),)))
    return out


def variant(rng, P, pts, opt):
    """The problem with one difference."""
    P, opt, pts = copy.deepcopy(P), copy.deepcopy(opt), np.array(pts)
    what = str(rng.choice(["d", "d", "d", "c", "freq", "material", "source", "order", "pts", "simplify", "biot", "n"]))
    if what == "d":
        # the largest voxel dimension is kept
        k = int(np.argmax(P["d"]))
        oth = [a for a in range(3) if a != k]
        thin = [a for a in oth if P["n"][a] == 1]
        for a in (thin if thin and rng.random() < 0.6 else oth if rng.random() < 0.5 else [int(rng.choice(oth))]):
            P["d"][a] = float(P["d"][a]*rng.uniform(0.4, 0.9))
    if what == "c":
        P["c"] = [float(x) for x in np.array(P["c"])+rng.normal(size=3)*np.array(P["d"])]
    if what == "freq":
        P["param"]["freq"] = float(P["param"]["freq"]*rng.uniform(1.1, 3)+1.0)
    if what in ("material", "source"):
        val = P["param"][what+"_val"]
        tag = str(rng.choice(list(val)))
        val[tag] = {k: (np.array(x)*(1.5 if k.endswith("_re") else 1.0)).tolist() for k, x in val[tag].items()}
    if what == "order":
        P["dom"] = {k: (x[::-1] if rng.random() < 0.5 else x) for k, x in reversed(list(P["dom"].items()))}
    if what == "pts":
        pts = pts+np.array(P["d"])*np.array(P["n"])*3
    if what == "simplify":
        opt["integral_simplify"] = float(rng.choice([0.5, 1.2, 2.1, 5.0]))
    if what == "biot":
        opt["biot_savart"] = "face" if opt["biot_savart"] == "voxel" else "voxel"
    if what == "n":
        # empty layers on top
        P["n"] = [int(x) for x in (P["n"][0], P["n"][1], P["n"][2]+1)]
    return what, P, pts, opt


def solver_jobs(rng, root, ctx):
    P = gen.random_problem(rng) if rng.random() < 0.5 else lib.big(rng, max_vox=40)
    vox = forked(ctx, lambda: lib.mesh(Direct(root), P, lib.outside_points(rng, P, 2)))
    par2 = copy.deepcopy(P["param"])
    par2["freq"] = par2["freq"]*7+50.0
    sweeps = [None, {"a": {"init": None, "param": P["param"]}, "b": {"init": "a", "param": par2}}, {"b": {"init": None, "param": par2}, "a": {"init": None, "param": P["param"]}}]
    ro = rng.random() < 0.3
    out, shared = [], rng.random() < 0.5
    for k in range(int(rng.integers(2, 4))):
        sw = sweeps[int(rng.integers(3))]
        v = vox if shared else copy.deepcopy(vox)
        out.append(Job("solve %d" % k, pypeec.run_solver_data, (v, gen.data_problem(P, sw), solver_options(rng)), readonly=ro))
    # the same problem with a single difference and the same options
    opt = solver_options(rng)
    pts = lib.outside_points(rng, P, 2)
    out.append(Job("solve base", pypeec.run_solver_data, (vox, gen.data_problem(P), opt), readonly=ro))
    for _ in range(int(rng.integers(1, 4))):
        what, P2, pts2, opt2 = variant(rng, P, pts, opt)
        v = forked(ctx, lambda: lib.mesh(Direct(root), P2, pts2))
        out.append(Job("solve other "+what, pypeec.run_solver_data, (v, gen.data_problem(P2), opt2), readonly=ro))
    rules = solver_rules(rng, P, vox)
    for _ in range(2):
        what, prob, v = rules[int(rng.integers(len(rules)))]
        out.append(Job("bad solve:"+what, pypeec.run_solver_data, (v, prob, solver_options(rng))))
    bad = gen.merge(solver_options(rng), [{"fft_options": {"library": "CuPy"}}, {"fft_options": {"library": "FFTW"}}, {"factorization_options": {"library": "PyAMG"}}, {"factorization_options": {"library": "PARDISO"}},
                                          {"mult_type": "xx"}, {"fft_options": {"library": "xx"}}, {"solver_options": {"direct_options": {"solver": "cg"}}}][int(rng.integers(7))])
    out.append(Job("bad options", pypeec.run_solver_data, (vox, gen.data_problem(P), bad)))
    return out


def plot_jobs(rng, root, ctx):
    out = []
    for viewer in ((True, False) if rng.random() < 0.5 else (False,)):
        seed = int(rng.integers(1 << 30))
        data, cfg, sweeps = forked(ctx, lambda: (viewer_case if viewer else plotter_case)(np.random.default_rng(seed), Direct(root)))
        fn = pypeec.run_viewer_data if viewer else pypeec.run_plotter_data
        if not viewer:
            cfg["mpl"] = plotlib.plotter_plot(rng, str(rng.choice(["convergence", "residuum"])), "T")
        tags = list(cfg)
        for k in range(2):
            sel = None if rng.random() < 0.5 else [str(rng.choice(tags))]
            kw = {"plot_mode": "debug", "tag_plot": sel}
            out.append(Job("plot %d" % k, fn, (data, copy.deepcopy(cfg)), kw, plot=True))
        if not viewer:
            alt = copy.deepcopy(cfg)
            alt["mpl"]["data_options"] = plotlib.opt_mpl(rng)
            out.append(Job("plot style", fn, (data, {"mpl": alt["mpl"]}), {"plot_mode": "debug"}, plot=True))
        out.append(Job("bad plot", fn, (data, cfg), {"plot_mode": "debug", "tag_plot": ["none such"]}, plot=True))
        brk = copy.deepcopy(cfg)
        t = str(rng.choice(tags))
        if rng.random() < 0.5:
            del brk[t]["data_window"]
        elif "colormap" in brk[t]["data_plot"]:
            brk[t]["data_plot"]["colormap"] = "no such map"
        elif "var" in brk[t]["data_plot"]:
            brk[t]["data_plot"]["var"] = "X_x"
        else:
            brk[t]["framework"] = "none"
        out.append(Job("bad plot option", fn, (data, brk), {"plot_mode": "debug"}, plot=True))
    return out


def util_jobs(rng, root, ctx):
    n = int(rng.integers(1, 5))
    m = n+int(rng.integers(0, 4))
    f = float(10**rng.uniform(0, 6))
    ro = rng.random() < 0.6
    Z, I = rand_z(rng, n, f), rand_i(rng, n, m)
    term = {"n_solution": m, "n_winding": n, "freq": f, "V_mat": Z@I, "I_mat": I}
    sym = group(rng, n)[0]
    v = rng.normal(size=int(rng.integers(1, 30)))
    c = rng.normal(size=int(rng.integers(2, 12)))+1j*rng.normal(size=1)
    nn = [int(x) for x in rng.integers(1, 9, 3)]
    idx = rng.integers(0, int(np.prod(nn)), 7)
    ten = np.stack(np.unravel_index(idx, nn, order="F"), 1) if rng.random() < 0.5 else np.array([[0, 0, 0]])
    nt = int(2*len(c)+rng.integers(0, 5))
    J = [Job("get_matrix", matrix.get_matrix, (term,), readonly=ro), Job("get_symmetry", matrix.get_symmetry, (copy.deepcopy(term), sym), readonly=ro),
         Job("get_fft", fourier.get_fft, (v,), readonly=ro), Job("get_ifft", fourier.get_ifft, (c,), readonly=ro), Job("get_ifft n", fourier.get_ifft, (c.copy(), nt), readonly=ro),
         Job("get_fft n", fourier.get_fft, (v.copy(), int(rng.integers(1, 20)))), Job("idx_tensor", voxel.get_idx_tensor, (nn, idx), readonly=ro), Job("idx_linear", voxel.get_idx_linear, (nn, ten), readonly=ro),
         Job("get_time", fourier.get_time, (f, nt)), Job("get_freq", fourier.get_freq, (f, n)), Job("bad matrix", matrix.get_matrix, ({**term, "n_winding": n+1},))]
    P = gen.random_problem(rng)
    tags = list(P["source_def"])
    if len(tags) >= 2:
        from checks.c20 import FAST
        sol = forked(ctx, lambda: lib.solve(Direct(root), P, FAST))
        J.append(Job("get_extract", matrix.get_extract, (sol, ["sim"], [{"src": tags[0], "sink": tags[1]}] )))
    return J


def run(ctx):
    plotlib.install()
    # import everything once, without calling anything
    import pypeec.run.mesher, pypeec.run.solver, pypeec.run.viewer, pypeec.run.plotter
    import pypeec.lib_mesher.mesher_png, pypeec.lib_mesher.mesher_stl, pypeec.lib_mesher.mesher_shape

    def history(rng, i):
        root = os.path.join(ctx.scratch, "h%d" % i)
        os.makedirs(root)
        pools = [lambda: mesher_jobs(rng, root, i), lambda: solver_jobs(rng, root, ctx), lambda: plot_jobs(rng, root, ctx), lambda: util_jobs(rng, root, ctx)]
        focus = i % 5
        jobs = []
        # the pool is built in a way that calls nothing in this process
        for k in ([focus] if focus < 4 else [0, 1, 2, 3]):
            jobs += pools[k]()
        if focus == 1:
            jobs += pools[1]()
        refs = [forked(ctx, j.run) for j in jobs]
        order = [int(x) for _ in range(3) for x in rng.permutation(len(jobs))][:ctx.n(24, 48)]
        order = order+[k for k in range(len(jobs)) if k not in order]
        ctx.case({"jobs": [j.name for j in jobs], "order": order, "outcomes": [r[0] for r in refs]}, len(set(order)) >= 4)
        for j, r in zip(jobs, refs):
            ctx.count("ref:"+r[0])
            if r[0] == "exc":
                ctx.expect(j.name.startswith("bad"), "valid call fails in a fresh process", job=j.name, got=r, abort=True)
        seeds = [int(x) for x in rng.integers(0, 1 << 31, len(order))]

        def play():
            bad = []
            snap0 = [reslib.snapshot((j.args, j.kw)) for j in jobs]
            kept = []
            hist = []
            for t, k in enumerate(order):
                j = jobs[k]
                if seeds[t] % 3 == 0:
                    np.random.seed(seeds[t] % 1000)
                got = j.run()
                d = same(refs[k], got)
                if d:
                    bad.append(("result of a call depends on the earlier calls", j.name, d, list(hist)))
                s = reslib.snapshot((j.args, j.kw))
                if s != snap0[k]:
                    bad.append(("a call modifies its arguments", j.name, reslib.where(snap0[k], s), list(hist)))
                    snap0[k] = s
                if got[0] == "ok":
                    kept.append((j.name, got[1], reslib.snapshot(got[1])))
                hist.append(j.name)
                if len(bad) > 3:
                    break
            for k, j in enumerate(jobs):
                s = reslib.snapshot((j.args, j.kw))
                if s != snap0[k]:
                    bad.append(("the arguments of a call are modified by other calls", j.name, reslib.where(snap0[k], s), hist))
            for name, res, s in kept:
                t = reslib.snapshot(res)
                if t != s:
                    bad.append(("the result of a call is modified by later calls", name, reslib.where(s, t), hist))
            return bad, len(hist)
        bad, n = forked(ctx, play)
        ctx.count("calls", n)
        ctx.count("assertions", 3*n)
        for (msg, name, d, hist) in bad[:4]:
            ctx.fail("%s: %s: %s" % (msg, name, d), history=hist)

    ctx.ploop("history", ctx.n(100, 1000), history)
