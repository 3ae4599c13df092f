"""C29: plots created and images written."""
import copy
import hashlib
import json
import os
import pickle
import subprocess
import sys
import types
import numpy as np
import plotlib
import pypeec
import gen, lib, meshlib
from core import jsonable

RULE = ("random sets of viewer and plotter plots, tag and sweep selections, names, folders and modes (save, debug, Qt with a stand-in window and event loop, and real rendering in a virtual display if one can be started); "
        "the created plotters and figures and the files of a scratch folder before and after are compared with the requested list; non-trivial: at least two plots are defined and at least one is selected")
ASSUMPTIONS = ["rasterisation is replaced by a recording stand-in except in the stage real", "unique combinations of sweep and plot tags", "the notebook mode is not exercised (its backend is not installed)",
               "with the Qt mode only window creation, showing and the event loop call are observed"]
FAST = gen.tol(solver_options={"direct_options": {"rel_tol": 1e-4, "n_inner": 20, "n_outer": 5}, "tolerance_options": {"ignore_status": True}}, condition_options={"check": False})
TAGS = ["a", "b1", "b", "a_b1", "long_name", "long", "X-y", "p.q", "with space", "0", "é"]


def tree(root):
    """Relative path -> content hash of all files (and folders)."""
    out = {}
    for base, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), root)] = "dir"
        for x in files:
            with open(os.path.join(base, x), "rb") as f:
                out[os.path.relpath(os.path.join(base, x), root)] = hashlib.sha1(f.read()).hexdigest()
    return out


def png_size(path):
    import PIL.Image
    with PIL.Image.open(path) as im:
        im.load()
        return im.format, im.size


def pick(rng, tags):
    """Selection of tags: (argument, list of selected)."""
    k = int(rng.integers(4))
    if k == 0:
        return None, list(tags)
    if k == 1 and len(tags) > 1:
        sel = [str(x) for x in rng.permutation(tags)[:int(rng.integers(1, len(tags)))]]
    elif k == 2:
        sel = [str(x) for x in rng.permutation(tags)]
    else:
        sel = [str(rng.choice(tags))]
    return sel, sel


def viewer_case(rng, ctx):
    n = meshlib.rand_grid(rng, hi=4, vmax=30)
    g = gen.geometry(n, gen.rand_size(rng), [0.0, 0.0, 0.0], meshlib.rand_domains(rng, n), [])
    vox = ctx.call(pypeec.run_mesher_data, g)
    tags = [str(x) for x in rng.permutation(TAGS)[:int(rng.integers(1, 5)) if rng.random() < 0.9 else len(TAGS)]]
    cfg = {t: plotlib.viewer_plot(rng, str(rng.choice(["domain", "graph", "mesh"])), "title of "+t) for t in tags}
    return vox, cfg, [""]


def plotter_case(rng, ctx):
    P = gen.random_problem(rng)
    k = int(rng.integers(1, 4))
    sw = [str(x) for x in rng.permutation(["sim", "sim_1", "im", "S2", "S", "f_1", "z"])[:k]]
    P = copy.deepcopy(P)
    vox = lib.mesh(ctx, P, lib.outside_points(rng, P, 2))
    prob = gen.data_problem(P)
    base = list(prob["sweep_solver"].values())[0]
    prob["sweep_solver"] = {t: copy.deepcopy(base) for t in sw}
    sol = ctx.call(pypeec.run_solver_data, vox, prob, FAST)
    tags = [str(x) for x in rng.permutation(TAGS)[:int(rng.integers(1, 5)) if rng.random() < 0.9 else len(TAGS)]]
    lay = ["material", "convergence", "residuum", "norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "arrow_point"]
    cfg = {t: plotlib.plotter_plot(rng, str(rng.choice(lay)), "title of "+t) for t in tags}
    return sol, cfg, sw


def same(a, b):
    return pickle.dumps(jsonable(a)) == pickle.dumps(jsonable(b))


def run(ctx):
    plotlib.install()

    def setup(rng, i):
        viewer = bool(i % 2)
        data, cfg, sweeps = (viewer_case if viewer else plotter_case)(rng, ctx)
        fn = pypeec.run_viewer_data if viewer else pypeec.run_plotter_data
        arg_t, sel_t = pick(rng, list(cfg))
        arg_s, sel_s = (None, [""]) if viewer else pick(rng, sweeps)
        kw = {}
        if arg_t is not None or rng.random() < 0.3:
            kw["tag_plot"] = arg_t
        if not viewer and (arg_s is not None or rng.random() < 0.3):
            kw["tag_sweep"] = arg_s
        want = {(s, t): (s+"_" if s else "")+t for s in sel_s for t in sel_t}
        return viewer, fn, data, cfg, kw, want

    def created(ctx, ev, cfg, want, frame=True):
        """The plots that were created are the requested ones."""
        pls = [e[1] for e in ev if e[0] == "plotter"]
        figs = [e[1] for e in ev if e[0] == "figure"]
        n_mpl = sum(cfg[t]["framework"] == "matplotlib" for _, t in want)
        ctx.expect(len(pls) == len(want)-n_mpl, "one rendered plot per requested plot", got=len(pls), want=len(want)-n_mpl, abort=True)
        ctx.expect(len(figs) == n_mpl, "one figure per requested plot", got=len(figs), want=n_mpl, abort=True)
        ctx.count("plots", len(want))
        titles = sorted(x[1] for p in pls for x in p.vp_log if x[0] == "text" and str(x[1]).startswith("title of "))
        ref = sorted("title of "+t for _, t in want if cfg[t]["framework"] == "pyvista")
        ctx.expect(titles == ref, "the created plots are the requested ones", got=titles, want=ref, abort=True)
        return pls, figs

    def save(rng, i):
        viewer, fn, data, cfg, kw, want = setup(rng, i)
        root = os.path.join(ctx.scratch, "s%d" % i)
        sub = ["", "out", "deep/er", "with space"][int(rng.integers(4))]
        os.makedirs(os.path.join(root, sub))
        cwd = os.getcwd()
        kind = int(rng.integers(3))
        os.chdir(root)
        try:
            if kind == 0:
                os.chdir(os.path.join(root, sub))
                if rng.random() < 0.5:
                    kw["folder"] = None
            elif kind == 1:
                kw["folder"] = os.path.join(root, sub)
            else:
                kw["folder"] = sub or "."
            name = [None, "res", "my run", "v1.0"][int(rng.integers(4))]
            if name is not None or rng.random() < 0.3:
                kw["name"] = name
            pre = name if name is not None else "pypeec"
            files = {os.path.normpath(os.path.join(sub, "%s_%s.png" % (pre, x))): k for k, x in want.items()}
            # files that are already there
            for x in ["keep.png", "pypeec.png"]+(list(files)[:1] if rng.random() < 0.4 else []):
                with open(os.path.join(root, x), "wb") as f:
                    f.write(b"old")
            before = tree(root)
            ctx.case({"viewer": viewer, "layouts": {t: cfg[t]["layout"] for t in cfg}, "kw": kw, "want": list(files)}, len(cfg) >= 2)
            plotlib.take()
            snap = copy.deepcopy((data, cfg, kw))
            ctx.call(fn, data, cfg, plot_mode="save", **kw)
            after = tree(root)
            ev = plotlib.take()
            ctx.expect(same(snap, (data, cfg, kw)), "save mode leaves the inputs untouched")
            ctx.expect(set(after) == set(before) | set(files), "exactly the requested files are written", got=sorted(set(after)-set(before)), want=sorted(files), abort=True)
            ctx.expect(all(after[x] == before[x] for x in before if x not in files), "other files are left alone")
            pls, figs = created(ctx, ev, cfg, want)
            shots = [(e[1], os.path.relpath(os.path.join(os.getcwd(), e[2]), root)) for e in ev if e[0] in ("shot", "savefig")]
            ctx.expect(sorted(os.path.normpath(x[1]) for x in shots) == sorted(files), "one image per plot", got=[x[1] for x in shots], want=sorted(files), abort=True)
            ctx.expect(len({id(x[0]) for x in shots}) == len(shots), "every plot is saved once")
            for obj, path in shots:
                (s, t) = files[os.path.normpath(path)]
                c = cfg[t]
                size = c["data_window"]["image_size"]
                fmt, px = png_size(os.path.join(root, path))
                ctx.expect(fmt == "PNG", "the file is a PNG image")
                if c["framework"] == "pyvista":
                    ctx.expect(hasattr(obj, "vp_log"), "kind of plot", abort=True)
                    ti = [x[1] for x in obj.vp_log if x[0] == "text" and str(x[1]).startswith("title of ")]
                    ctx.expect(ti == ["title of "+t], "the file shows the plot of its tag", got=ti, want=t)
                    if size is not None:
                        ctx.expect(tuple(obj.vp_args[1].get("window_size") or ()) == tuple(size), "image size of the renderer", got=obj.vp_args, want=size)
                        ctx.expect(obj.vp_args[1].get("off_screen") is True, "rendering is off screen")
                else:
                    ctx.expect(not hasattr(obj, "vp_log"), "kind of plot", abort=True)
                    bars = len(obj.axes[0].patches) > 0 and len(obj.axes[0].get_lines()) < 2
                    ctx.expect(bars == (c["layout"] == "residuum"), "the file shows the plot of its tag", tag=t)
                    if size is not None:
                        ctx.expect(abs(px[0]-size[0]) <= 1 and abs(px[1]-size[1]) <= 1, "image size", got=px, want=size)
            ctx.expect(not plotlib.plt.get_fignums(), "figures are closed")
            ctx.expect(all(getattr(p, "vp_closed", False) for p in pls), "plots are closed")
            ctx.count("files", len(files))
        finally:
            os.chdir(cwd)
            plotlib.release(plotlib.take())

    def debug(rng, i):
        viewer, fn, data, cfg, kw, want = setup(rng, i)
        root = os.path.join(ctx.scratch, "d%d" % i)
        os.makedirs(root)
        cwd = os.getcwd()
        os.chdir(root)
        try:
            if rng.random() < 0.5:
                kw["folder"] = root
            if rng.random() < 0.5:
                kw["name"] = "n"
            ctx.case({"viewer": viewer, "layouts": {t: cfg[t]["layout"] for t in cfg}, "kw": kw}, len(cfg) >= 2)
            plotlib.take()
            snap = copy.deepcopy((data, cfg, kw))
            ctx.call(fn, data, cfg, plot_mode="debug", **kw)
            ev = plotlib.take()
            created(ctx, ev, cfg, want)
            ctx.expect(not [e for e in ev if e[0] in ("shot", "savefig", "show")], "debug mode neither shows nor saves")
            ctx.expect(tree(root) == {}, "debug mode writes nothing", got=tree(root))
            ctx.expect(same(snap, (data, cfg, kw)), "debug mode leaves the inputs untouched")
        finally:
            os.chdir(cwd)
            plotlib.release(plotlib.take())

    def reject(rng, i):
        viewer, fn, data, cfg, kw, want = setup(rng, i)
        root = os.path.join(ctx.scratch, "r%d" % i)
        os.makedirs(root)
        cwd = os.getcwd()
        os.chdir(root)
        try:
            ctx.case({"viewer": viewer, "tags": list(cfg), "kw": kw}, len(cfg) >= 2)
            bad = ["nope", list(cfg)[0]+"x", list(cfg)[0][:-1] or "?", ""][int(rng.integers(4))]
            if bad in cfg:
                bad = "nope"
            which = "tag_plot" if viewer or rng.random() < 0.5 else "tag_sweep"
            good = list(kw.get(which) or [])
            good.insert(int(rng.integers(len(good)+1)), bad)
            plotlib.take()
            if i % 5 == 4:
                # a folder that does not exist: the images are in it or nowhere
                sub = ["missing", "a/b", "with space"][int(rng.integers(3))]
                folder = os.path.join(root, sub) if rng.random() < 0.5 else sub
                try:
                    fn(data, cfg, plot_mode="save", **{**kw, "folder": folder})
                    ctx.expect(len(tree(root)) == len(want), "the requested files are written into the new folder", got=tree(root))
                except Exception:
                    ctx.count("missing_folder")
                ctx.count("assertions")
                got = [x for x in tree(root) if not os.path.normpath(x).startswith(os.path.normpath(sub)+os.sep)]
                ctx.expect(not got, "nothing is written outside the given folder", got=got, folder=folder)
                return
            if rng.random() < 0.8:
                kw[which] = good
                ctx.raises(fn, data, cfg, plot_mode=str(rng.choice(["save", "debug"])), what="unknown %s" % which, **kw)
            else:
                mode = str(rng.choice(["Save", "png", "", "none"]))
                ctx.raises(fn, data, cfg, plot_mode=mode, what="plot mode %r" % mode, **kw)
            ev = plotlib.take()
            ctx.expect(not [e for e in ev if e[0] in ("plotter", "figure", "shot", "savefig", "show")], "nothing is created for an unknown tag or mode")
            ctx.expect(tree(root) == {}, "nothing is written for an unknown tag or mode")
        finally:
            os.chdir(cwd)
            plotlib.release(plotlib.take())

    def qt(rng, i):
        # stand-in window and event loop
        class Window(plotlib.RecPlotter):
            def __init__(self, show=False, toolbar=None, menu_bar=None, title=None, window_size=None, **k):
                super().__init__(off_screen=True, window_size=window_size)
                self.qt = dict(show=show, toolbar=toolbar, menu_bar=menu_bar, title=title, window_size=window_size)
                self.app_window = types.SimpleNamespace(show=lambda: plotlib.EVENTS.append(("window", self)), close=lambda: None)

            def set_icon(self, *a):
                pass
        mod = types.ModuleType("pyvistaqt")
        mod.BackgroundPlotter = Window
        sys.modules["pyvistaqt"] = mod
        import PyQt5.QtWidgets

        def loop(*a):
            plotlib.EVENTS.append(("loop", None))
            return 0
        PyQt5.QtWidgets.QApplication.exec = loop
        viewer, fn, data, cfg, kw, want = setup(rng, i)
        root = os.path.join(ctx.scratch, "q%d" % i)
        os.makedirs(root)
        cwd = os.getcwd()
        os.chdir(root)
        try:
            if rng.random() < 0.7:
                kw["plot_mode"] = "qt" if rng.random() < 0.6 else None
            ctx.case({"viewer": viewer, "layouts": {t: cfg[t]["layout"] for t in cfg}, "kw": kw}, len(cfg) >= 2)
            plotlib.take()
            ctx.call(fn, data, cfg, **kw)
            ev = plotlib.take()
            pls, figs = created(ctx, ev, cfg, want)
            shown = [e[1] for e in ev if e[0] == "window"]
            ctx.expect(sorted(map(id, shown)) == sorted(map(id, pls)), "every window is shown once")
            loops = [k for k, e in enumerate(ev) if e[0] == "loop"]
            ctx.expect(len(loops) == 1 and all(k < loops[0] for k, e in enumerate(ev) if e[0] in ("plotter", "figure", "window")), "the event loop is entered once, after all plots")
            ctx.expect(not [e for e in ev if e[0] in ("shot", "savefig")] and tree(root) == {}, "nothing is saved when plots are shown")
            ctx.count("windows", len(shown))
        finally:
            os.chdir(cwd)
            plotlib.plt.close("all")
            plotlib.release(plotlib.take())

    def real(rng, i):
        """Real rendering in a virtual display, in another process."""
        viewer, fn, data, cfg, kw, want = setup(rng, i)
        root = os.path.join(ctx.scratch, "x%d" % i)
        os.makedirs(os.path.join(root, "out"))
        for c in cfg.values():
            if "plot_clip" in c["data_options"]:
                # the interactive clip plane needs a window
                c["data_options"]["plot_clip"]["clip_plot"] = False
        job = {"fn": fn.__name__, "data": data, "cfg": cfg, "kw": {**kw, "folder": os.path.join(root, "out"), "name": "r", "plot_mode": "save"}, "control": os.path.join(root, "control.png")}
        with open(os.path.join(root, "job"), "wb") as f:
            pickle.dump(job, f)
        env = dict(os.environ)
        script = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "realrender.py")
        try:
            p = subprocess.run(["xvfb-run", "-a", sys.executable, script, os.path.join(root, "job")], cwd=root, env=env, capture_output=True, timeout=240, start_new_session=True)
        except (OSError, subprocess.TimeoutExpired):
            ctx.count("real_display_unavailable")
            return
        if not os.path.exists(job["control"]) or b"\nREADY\n" not in b"\n"+p.stdout:
            ctx.count("real_display_unavailable")
            return
        ctx.case({"viewer": viewer, "layouts": {t: cfg[t]["layout"] for t in cfg}, "kw": kw, "real": True}, len(cfg) >= 2)
        ctx.expect(b"\nDONE\n" in p.stdout, "real rendering completes", rc=p.returncode, out=p.stdout[-500:].decode("utf8", "replace"), err=p.stderr[-1500:].decode("utf8", "replace"), abort=True)
        files = {"r_%s.png" % x: k for k, x in want.items()}
        got = tree(os.path.join(root, "out"))
        ctx.expect(set(got) == set(files), "exactly the requested files are rendered", got=sorted(got), want=sorted(files), abort=True)
        for x, (s, t) in files.items():
            fmt, px = png_size(os.path.join(root, "out", x))
            size = cfg[t]["data_window"]["image_size"]
            ctx.expect(fmt == "PNG" and (size is None or (abs(px[0]-size[0]) <= 1 and abs(px[1]-size[1]) <= 1)), "rendered image of the requested size", got=px, want=size)
            ctx.count("rendered_files")

    ctx.ploop("save", ctx.n(120, 1200), save)
    ctx.ploop("debug", ctx.n(40, 400), debug)
    ctx.ploop("reject", ctx.n(60, 600), reject)
    ctx.ploop("qt", ctx.n(24, 200), qt)
    ctx.ploop("real", ctx.n(8, 60), real)
