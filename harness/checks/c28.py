"""C28: content of the viewer and plotter plots."""
import re
import numpy as np
import pyvista as pv
import plotlib
import pypeec
import gen, lib, meshlib, model
from oracle import var

RULE = ("random meshes and solutions viewed and plotted with random layouts, variables, phases, scales, filter and clamp limits; every object handed to the renderer is compared cell by cell, point by point and arrow by "
        "arrow with the voxel positions and values of the input; curves and histograms with the recorded solver data; non-trivial: at least two non-empty domains (viewer) or shown values (plotter)")
ASSUMPTIONS = ["the final rasterisation is replaced by a recording stand-in", "negative scales are not used for arrows", "colour codes are checked through the colour a cell finally gets"]


def boxes(mesh):
    """Corners (lo, hi) of the cells of an unstructured grid."""
    out = []
    pts = np.asarray(mesh.points, float)
    cells = np.asarray(mesh.cells)
    k = 0
    while k < len(cells):
        m = int(cells[k])
        p = pts[cells[k+1:k+1+m]]
        out.append((p.min(axis=0), p.max(axis=0)))
        k += m+1
    return np.array([x[0] for x in out]).reshape(-1, 3), np.array([x[1] for x in out]).reshape(-1, 3)


def voxel_ids(ctx, mesh, n, d, c, what):
    """Linear index of every cell, from its position and size."""
    lo, hi = boxes(mesh)
    org = np.array(c)-np.array(n)*np.array(d)/2
    t = (lo-org)/d
    k = np.rint(t).astype(int)
    eps = 1e-3+1e-6*np.max(np.abs(np.array(c))/np.array(d)+np.array(n))*10
    ctx.expect(len(k) == 0 or (np.max(np.abs(t-k)) < eps and np.max(np.abs((hi-lo)/d-1)) < 2*eps), what+": cells have the position and size of voxels")
    ctx.expect(np.all(k >= 0) and np.all(k < np.array(n)), what+": cells are inside the grid", abort=True)
    return k[:, 0]+n[0]*(k[:, 1]+n[1]*k[:, 2])


def numbers(text):
    return [float(x) for x in re.findall(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", text)]


def payload(pl, scalars=True):
    return [x for x in pl.vp_log if x[0] == "mesh" and (("scalars" in x[2]) == scalars)]


def wires(ctx, pl, n, d, c, used, pts, view):
    """Wireframe grid, wireframe geometry and cloud points."""
    col = {k: [x for x in pl.vp_log if x[0] == "mesh" and "scalars" not in x[2] and x[2].get("color") == view[k+"_color"]] for k in ("grid", "geom", "point")}
    ctx.expect(len(col["grid"]) == int(view["grid_plot"]), "grid wireframe shown if requested")
    ctx.expect(len(col["geom"]) == int(view["geom_plot"]), "voxel wireframe shown if requested")
    ctx.expect(len(col["point"]) == int(view["point_plot"] and len(pts) > 0), "cloud points shown if requested")
    if col["grid"]:
        g = col["grid"][0][1]
        b = np.array(g.bounds).reshape(3, 2)
        half = np.array(n)*np.array(d)/2
        ctx.expect(g.n_cells == int(np.prod(n)), "grid wireframe has all voxels")
        ctx.close(b, np.stack([c-half, c+half], axis=1), 1e-6, "grid wireframe extent", scale=np.max(np.abs(c)+half))
    if col["geom"]:
        ids = voxel_ids(ctx, col["geom"][0][1], n, d, c, "wireframe")
        ctx.expect(sorted(ids.tolist()) == sorted(used), "voxel wireframe has the non-empty voxels")
    if col["point"]:
        q = np.asarray(col["point"][0][1].points, float)
        ctx.close(q, np.asarray(pts, float).reshape(-1, 3), 1e-6, "cloud points are at their position", scale=np.max(np.abs(pts))+1e-300)


def distinct_colors(rng, cfg, extra=()):
    """Unique colours so that the objects can be told apart."""
    names = ["red", "blue", "green", "black", "yellow", "darkorange", "gainsboro", "darkviolet", "forestgreen", "royalblue", "white", "pink", "brown"]
    rng.shuffle(names)
    v = cfg["data_options"]["plot_view"]
    for k in ("grid", "geom", "point"):
        v[k+"_color"] = names.pop()
    for k in extra:
        cfg["data_plot"][k] = names.pop()


def run(ctx):
    plotlib.install()
    from checks import c15

    def one_plot(fn, *a, **k):
        plotlib.take()
        ctx.call(fn, *a, plot_mode="debug", **k)
        ev = plotlib.take()
        pls = [e[1] for e in ev if e[0] == "plotter"]
        figs = [e[1] for e in ev if e[0] == "figure"]
        ctx.count("plots", len(pls)+len(figs))
        return pls, figs, ev

    # ------------------------------------------------------------------ viewer
    def viewer(rng, i):
        n = meshlib.rand_grid(rng, hi=6, vmax=150)
        dom = meshlib.rand_domains(rng, n)
        if i % 10 == 6:
            n = meshlib.large_grid(rng, 500, 3000)
            dom = meshlib.large_domains(rng, n)
        d, c = np.array(gen.rand_size(rng)), np.array([float("%.3g" % x) for x in rng.normal(size=3)*10**rng.uniform(-3, -1)])
        m = int(rng.choice([0, 1, 5]))
        pts = c+(rng.random((m, 3))-0.5)*(np.array(n)+4)*d
        rs = {"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [int(x) for x in rng.integers(1, 3, 3)]}
        g = gen.geometry(n, d, c, dom, pts, data_resampling=rs)
        if i % 8 == 7:
            import os
            path = os.path.join(ctx.scratch, "v.stl")
            solid, _, _ = c15.solid(rng)
            solid.save(path)
            g = c15.geometry([0.31, 0.27, 0.25], None, None, {"s": [{"scale": 1.0, "offset": [0.1, 0.2, 0.3], "filename": path}]})
        vox = ctx.call(pypeec.run_mesher_data, g)
        geo = vox["data_geom"]
        n, d, c = [int(x) for x in geo["n"]], np.array(geo["d"], float), np.array(geo["c"], float)
        doms = meshlib.doms(geo)
        used = sorted(v for x in doms.values() for v in x)
        ctx.case(g, sum(bool(x) for x in doms.values()) >= 2)
        cloud = np.asarray(geo["pts_cloud"], float).reshape(-1, 3)
        for layout in ("domain", "graph", "mesh"):
            cfg = plotlib.viewer_plot(rng, layout, "T")
            distinct_colors(rng, cfg, ("color_voxel", "color_reference") if layout == "mesh" else ())
            pls, figs, ev = one_plot(pypeec.run_viewer_data, vox, {"p": cfg})
            ctx.expect(len(pls) == 1 and not figs, "one plot is created", abort=True)
            pl = pls[0]
            if layout == "mesh":
                a = [x for x in pl.vp_log if x[0] == "mesh" and x[2].get("color") == cfg["data_plot"]["color_voxel"]]
                b = [x for x in pl.vp_log if x[0] == "mesh" and x[2].get("color") == cfg["data_plot"]["color_reference"]]
                ctx.expect(len(a) == 1 and len(b) == 1, "voxel and reference structures are shown", abort=True)
                ids = voxel_ids(ctx, a[0][1], n, d, c, "mesh plot")
                ctx.expect(sorted(ids.tolist()) == used, "mesh plot has the non-empty voxels")
                ref = geo["reference"]
                if ref is None:
                    ids = voxel_ids(ctx, b[0][1], n, d, c, "reference")
                    ctx.expect(sorted(ids.tolist()) == used, "the reference of an index mesh is the mesh")
                else:
                    ctx.count("reference_mesh")
                    ctx.close(np.asarray(b[0][1].points, float), np.asarray(ref["points"], float), 1e-6, "reference points")
                    ctx.expect(b[0][1].n_cells == pv.PolyData(np.asarray(ref["points"]), np.asarray(ref["faces"])).n_cells, "reference faces")
            else:
                pay = payload(pl)
                ctx.expect(len(pay) == 1, "one coloured object", abort=True)
                obj, kw = pay[0][1], pay[0][2]
                ids = voxel_ids(ctx, obj, n, d, c, layout)
                ctx.expect(sorted(ids.tolist()) == used, layout+" plot has exactly the non-empty voxels", abort=True)
                val = np.asarray(obj.cell_data[kw["scalars"]])
                at = {int(v): int(x) for v, x in zip(ids, val)}
                if layout == "domain":
                    parts = [x for x in doms.values() if x]
                else:
                    gd = geo["graph_def"]
                    parts = [[int(v) for v in np.asarray(x).ravel()] for x in (gd.values() if isinstance(gd, dict) else gd)]
                    ctx.expect({frozenset(p) for p in parts} == meshlib.comps(n, used), "components of the mesh")
                vals = [{at[v] for v in p} for p in parts]
                ctx.expect(all(len(x) == 1 for x in vals), "one value per "+layout)
                ctx.expect(len({min(x) for x in vals}) == len(parts), "different values for different "+layout+"s")
                ctx.count("cells", len(ids))
            wires(ctx, pl, n, d, c, used, cloud, cfg["data_options"]["plot_view"])
            plotlib.release(ev)

    # ------------------------------------------------------------------ plotter
    FAST = gen.tol(solver_options={"direct_options": {"rel_tol": 1e-4, "n_inner": 20, "n_outer": 5}, "tolerance_options": {"ignore_status": True}}, condition_options={"check": False})

    def limits(rng, val):
        """Limits strictly between distinct values."""
        u = np.unique(val[np.isfinite(val)])
        if len(u) < 2:
            return None
        mid = (u[1:]+u[:-1])/2
        mid = mid[(u[1:]-u[:-1]) > 1e-6*np.max(np.abs(u))]
        if len(mid) < 2:
            return None
        a, b = np.sort(rng.choice(mid, 2, replace=False))
        return [float(a), float(b)]

    def check_values(ctx, got_ids, got, ids, val, dp, what, scale):
        """Filter and clamp expectations; ids/val: where the quantity is defined."""
        keep = np.ones(len(val), bool)
        if dp["filter_lim"] is not None:
            keep = (val >= dp["filter_lim"][0]) & (val <= dp["filter_lim"][1])
        exp = val[keep]
        if dp["clamp_lim"] is not None:
            exp = np.clip(exp, *dp["clamp_lim"])
        want = dict(zip([int(x) for x in ids[keep]], exp))
        ctx.expect(sorted(int(x) for x in got_ids) == sorted(want), what+": shown exactly where defined and not filtered", got=len(got_ids), want=len(want), abort=True)
        ref = np.array([want[int(x)] for x in got_ids])
        ctx.close(np.asarray(got, float), ref, 1e-5, what+": values belong to their voxel", scale=scale)
        ctx.count("cells", len(ref))

    def plotter(rng, i):
        P = lib.big(rng) if rng.random() < 0.4 else gen.random_problem(rng)
        m = int(rng.choice([0, 1, 6]))
        pts = lib.outside_points(rng, P, m)
        sol = lib.solve(ctx, P, FAST, None, pts)
        di, s = sol["data_init"], sol["data_sweep"]["sim"]
        n, d, c = [int(x) for x in P["n"]], np.array(P["d"], float), np.array(P["c"], float)
        ivc, ivm = np.asarray(di["idx_vc"]), np.asarray(di["idx_vm"])
        used = sorted(set(ivc.tolist()) | set(ivm.tolist()))
        ctx.case({"problem": gen.describe(P), "points": pts}, True)
        layouts = ["material", "convergence", "residuum"]+[str(x) for x in rng.choice(["norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "arrow_point"], 4)]
        for layout in layouts:
            cfg = plotlib.plotter_plot(rng, layout, "T")
            dp = cfg["data_plot"]
            if layout.endswith("voxel") or layout.endswith("point"):
                point = layout.endswith("point")
                name = dp["var"]
                v = np.asarray(var(s, name))
                ids = np.arange(len(pts)) if point else (ivc if name.endswith("_c") else ivm)
                if layout.startswith("arrow"):
                    dp["scale"] = abs(dp["scale"])
                    vec = np.real(v*np.exp(1j*dp["phase"]))
                    val = dp["scale"]*np.linalg.norm(vec, axis=1)
                elif layout.startswith("phasor"):
                    val = dp["scale"]*np.real(v*np.exp(1j*dp["phase"]))
                else:
                    val = dp["scale"]*(np.abs(v) if v.ndim == 1 else np.linalg.norm(np.abs(v), axis=1))
                if rng.random() < 0.4:
                    dp["filter_lim"] = limits(rng, val)
                if rng.random() < 0.4:
                    dp["clamp_lim"] = limits(rng, val)
                scale = max(abs(dp["scale"])*lib.amax(v), 1e-300)
            if "plot_view" in cfg["data_options"]:
                distinct_colors(rng, cfg)
            pls, figs, ev = one_plot(pypeec.run_plotter_data, sol, {"p": cfg})
            ctx.count("layout:"+layout)
            if layout in ("convergence", "residuum"):
                ctx.expect(len(figs) == 1 and not pls, "one figure is created", abort=True)
                ax = figs[0].axes[0]
                if layout == "convergence":
                    cv = s["conv"]
                    pv_ = np.concatenate(([cv["power_init"]], np.asarray(cv["power_vec"])))
                    lines = ax.get_lines()
                    ctx.expect(len(lines) == 2, "two convergence curves", abort=True)
                    pf = cv["power_final"]
                    if abs(pf) > 0:
                        by = {ln.get_color(): np.asarray(ln.get_ydata(), float) for ln in lines}
                        for col, part in ((dp["color_active"], np.real), (dp["color_reactive"], np.imag)):
                            ref = np.maximum(np.abs(part(pv_-pf))/abs(pf), np.finfo(float).eps)
                            ctx.expect(col in by and by[col].shape == ref.shape, "convergence curve length and colour", abort=True)
                            ctx.expect(bool(np.all(np.abs(by[col]-ref) <= 1e-6*ref+1e-12*np.max(np.abs(pv_))/abs(pf))), "convergence curve values", got=by[col][:5], want=ref[:5])
                            ctx.expect(np.array_equal(np.asarray(lines[0].get_xdata(), float), np.arange(len(ref))), "convergence curve positions")
                            # only two significant decimals are shown
                            num = numbers(ax.get_title())
                            ctx.expect(any(abs(x-part(pf)) <= 0.011*abs(part(pf))+1e-300 for x in num), "final power of the convergence plot", got=ax.get_title(), want=pf)
                else:
                    res = np.asarray(s["res"])
                    hts = np.array([p.get_height() for p in ax.patches])
                    ctx.expect(int(round(hts.sum())) == len(res), "histogram counts every residual", got=hts.sum(), want=len(res))
                    edges = np.array([p.get_x() for p in ax.patches]+[ax.patches[-1].get_x()+ax.patches[-1].get_width()])
                    a = np.maximum(np.abs(res), np.finfo(float).eps)
                    cnt = np.array([np.sum((a >= edges[k]) & (a < edges[k+1])) for k in range(len(edges)-1)])
                    near = np.min(np.abs(a[:, None]/edges[None, :]-1)) if len(a) else 1.0
                    if near > 1e-9:
                        ctx.expect(np.array_equal(cnt, np.rint(hts)), "histogram bins hold the residuals", got=hts, want=cnt)
                    rms = np.linalg.norm(res)/np.sqrt(len(res))
                    num = numbers(ax.get_title())
                    ctx.expect(len(res) in num, "number of unknowns of the residual plot", got=ax.get_title(), want=len(res))
                    ctx.expect(any(abs(x-rms) <= 0.011*rms for x in num), "residual magnitude of the residual plot", got=ax.get_title(), want=rms)
                plotlib.release(ev)
                continue
            ctx.expect(len(pls) == 1 and not figs, "one plot is created", abort=True)
            pl = pls[0]
            pay = payload(pl)
            if layout == "material":
                ctx.expect(len(pay) == 1, "one coloured object", abort=True)
                obj, kw = pay[0][1], pay[0][2]
                ids = voxel_ids(ctx, obj, n, d, c, "material")
                ctx.expect(sorted(ids.tolist()) == used, "material plot has exactly the non-empty voxels", abort=True)
                val = np.asarray(obj.cell_data[kw["scalars"]], float)
                a, b = kw["clim"]
                cm = kw["cmap"]
                k = np.clip(np.floor((val-a)/(b-a)*len(cm)).astype(int), 0, len(cm)-1)
                shown = {int(v): cm[q] for v, q in zip(ids, k)}
                cs, vs, ec, em = set(), set(), set(ivc.tolist()), set(ivm.tolist())
                for sd in P["source_def"].values():
                    (cs if sd["source_type"] == "current" else vs).update(model.dom_idx(P["dom"], sd["domain_list"]))
                for v in used:
                    w = "voltage_source" if v in vs else "current_source" if v in cs else "electromagnetic" if (v in ec and v in em) else "electric" if v in ec else "magnetic"
                    ctx.count("material:"+w)
                    ctx.expect(shown[v] == dp["color_"+w], "voxel has the colour of its kind", kind=w, abort=True)
            elif layout.startswith(("norm", "phasor")):
                if len(ids) == 0 or not pay:
                    keep = np.ones(len(val), bool) if dp["filter_lim"] is None else (val >= dp["filter_lim"][0]) & (val <= dp["filter_lim"][1])
                    ctx.expect(not pay and not np.any(keep), "nothing is shown if nothing is defined")
                else:
                    ctx.expect(len(pay) == 1, "one coloured object", abort=True)
                    obj, kw = pay[0][1], pay[0][2]
                    got = np.asarray(obj[kw["scalars"]])
                    if point:
                        q = np.asarray(obj.cell_centers().points, float).reshape(-1, 3)
                        gi = np.array([int(np.argmin(np.linalg.norm(pts-x, axis=1))) for x in q])
                        ctx.expect(all(np.linalg.norm(pts[k]-x) <= 1e-5*np.max(np.abs(pts)) for k, x in zip(gi, q)), "points are at their position")
                    else:
                        gi = voxel_ids(ctx, obj, n, d, c, layout)
                    check_values(ctx, gi, got, ids, val, dp, layout+" "+name, scale)
            else:
                # arrows: groups of points of the arrow shape, placed at the centres along the vector
                cen = pts if point else np.array([model.centre(n, d, c, v) for v in ids]).reshape(-1, 3)
                keep = np.ones(len(val), bool)
                if dp["filter_lim"] is not None:
                    keep = (val >= dp["filter_lim"][0]) & (val <= dp["filter_lim"][1])
                thr = (np.max(val[keep]) if np.any(keep) else 0.0)*dp["arrow_threshold"]
                if np.any(np.abs(val[keep]-thr) < 1e-6*scale):
                    plotlib.release(ev)
                    continue
                keep &= val > thr
                if not np.any(keep):
                    ctx.expect(not pay, "no arrow is shown if nothing is defined")
                else:
                    ctx.expect(len(pay) == 1, "one arrow object", abort=True)
                    obj, kw = pay[0][1], pay[0][2]
                    ref = pv.PolyData(np.zeros((1, 3)))
                    ref["v"] = np.array([[1.0, 0.0, 0.0]])
                    ref = ref.glyph(orient="v", scale=False, factor=1.0)
                    k = int(np.sum(keep))
                    ctx.expect(obj.n_points % k == 0 and obj.n_points == k*ref.n_points, "one arrow per shown value", got=obj.n_points, want=k*ref.n_points, abort=True)
                    p = np.asarray(obj.points, float).reshape(k, -1, 3).mean(axis=1)
                    fac = min(d)*dp["arrow_scale"]
                    mean = np.asarray(ref.points, float).mean(axis=0)[0]
                    u = vec[keep]/np.linalg.norm(vec[keep], axis=1)[:, None]
                    want = cen[keep]+fac*mean*u
                    nv = np.asarray(obj.point_data[kw["scalars"]] if kw["scalars"] in obj.point_data else obj.cell_data[kw["scalars"]], float).reshape(k, -1)
                    cl = val[keep] if dp["clamp_lim"] is None else np.clip(val[keep], *dp["clamp_lim"])
                    left = list(range(k))
                    ext = np.max(np.abs(cen))+max(d)
                    for q in range(k):
                        j = min(left, key=lambda z: np.linalg.norm(want[z]-p[q]))
                        left.remove(j)
                        ctx.expect(np.linalg.norm(want[j]-p[q]) <= 2e-2*fac+1e-5*ext, "arrow starts at its voxel and points along the field", got=p[q], want=want[j], abort=True)
                        ctx.close(nv[q], np.full(nv.shape[1], cl[j]), 1e-5, "arrow colour is the field value", scale=scale)
                    ctx.count("arrows", k)
            wires(ctx, pl, n, d, c, used, pts, cfg["data_options"]["plot_view"])
            plotlib.release(ev)

    # ---------------------------------------------------------------- camera
    def camera(rng, i):
        P = gen.random_problem(rng, max_vox=10)
        vox = lib.mesh(ctx, P)
        if i % 2:
            layout = str(rng.choice(["domain", "graph", "mesh"]))
            cfg, fn, data = plotlib.viewer_plot(rng, layout, "T"), pypeec.run_viewer_data, vox
        else:
            layout = str(rng.choice(["material", "norm_voxel", "phasor_voxel", "arrow_voxel"]))
            cfg, fn, data = plotlib.plotter_plot(rng, layout, "T"), pypeec.run_plotter_data, lib.solve(ctx, P, FAST)
        view = cfg["data_options"]["plot_view"]
        keys = ("camera_roll", "camera_azimuth", "camera_elevation")

        def cam(**kw):
            view.update({k: None for k in keys})
            view.update(kw)
            pls, figs, ev = one_plot(fn, data, {"p": cfg})
            ctx.expect(len(pls) == 1, "one plot is created", abort=True)
            c = pls[0].camera.copy()
            plotlib.release(ev)
            return c

        def frame(c):
            return np.concatenate([np.asarray(c.direction, float), np.asarray(c.up, float)])
        base = cam()
        ctx.case({"layout": layout, "cfg": cfg}, True)
        for k in keys:
            # the view from above is not unique
            for val in (0.0, float(rng.uniform(1, 75 if k != "camera_elevation" else 40)), 35.0):
                want = base.copy()
                setattr(want, k[7:], val)
                got = cam(**{k: val})
                ctx.close(frame(got), frame(want), 1e-6, "view direction with %s" % k, scale=1.0)
                ctx.close(np.asarray(got.focal_point), np.asarray(base.focal_point), 1e-6, "centre of the view with %s" % k, scale=float(np.max(np.abs(base.position))+1e-30))
        ctx.count("cameras", 10)

    ctx.ploop("camera", ctx.n(24, 240), camera)
    ctx.ploop("viewer", ctx.n(120, 1200), viewer)
    ctx.ploop("plotter", ctx.n(120, 1200), plotter)
