"""Recursive comparison of results, snapshots of arguments, signatures of recorded plots."""
import copy
import numpy as np
import pyvista as pv

TIMING = {"date", "duration", "seconds", "timestamp", "time"}
RANDOM = {"cond_electric", "cond_magnetic"}


def num(x):
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, (bool, np.bool_))


def diff(a, b, tol=1e-9, skip=TIMING | RANDOM, path="", scale=None, types=False):
    """First difference of two results (None if equal). Numbers are compared relatively to the largest of their array (or of their group)."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%s: types %s and %s" % (path, type(a).__name__, type(b).__name__)
        if {str(k) for k in a} != {str(k) for k in b}:
            return "%s: keys %s and %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        bb = {str(k): v for k, v in b.items()}
        vals = [abs(v) for v in a.values() if num(v) and not isinstance(v, (int, np.integer)) and np.isfinite(v)]
        s = max(vals) if vals else None
        for k, v in a.items():
            if k in skip:
                continue
            r = diff(v, bb[str(k)], tol, skip, path+"/"+str(k), s, types)
            if r:
                return r
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) and types:
            return "%s: types %s and %s" % (path, type(a).__name__, type(b).__name__)
        try:
            x, y = np.asarray(a), np.asarray(b)
        except ValueError:
            return "%s: not comparable" % path
        if x.shape != y.shape:
            return "%s: shapes %s and %s" % (path, x.shape, y.shape)
        if x.dtype.kind != y.dtype.kind and x.size:
            return "%s: kinds %s and %s" % (path, x.dtype, y.dtype)
        if x.size == 0 or np.array_equal(x, y):
            return None
        if x.dtype.kind not in "fc":
            return "%s: values differ" % path
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return "%s: NaN differ" % path
        ok = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(x[~ok], y[~ok], equal_nan=True):
            return "%s: infinite values differ" % path
        x, y = x[ok], y[ok]
        if x.size == 0:
            return None
        e, s = float(np.max(np.abs(x-y))), float(np.max(np.abs(x)))
        return None if e <= tol*s else "%s: error %.3e, scale %.3e" % (path, e, s)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return "%s: types %s and %s" % (path, type(a).__name__, type(b).__name__)
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (path, len(a), len(b))
        vals = [abs(v) for v in a if num(v) and np.isfinite(v)]
        for k, (v, w) in enumerate(zip(a, b)):
            r = diff(v, w, tol, skip, "%s[%d]" % (path, k), max(vals) if vals else None, types)
            if r:
                return r
        return None
    if num(a) and num(b):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return None if a == b else "%s: %r and %r" % (path, a, b)
        if a == b or (a != a and b != b):
            return None
        return None if abs(a-b) <= tol*max(abs(a), scale or 0.0) else "%s: %r and %r" % (path, a, b)
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return None if bool(a) == bool(b) else "%s: %r and %r" % (path, a, b)
    if isinstance(a, pv.DataSet) and isinstance(b, pv.DataSet):
        return diff(dataset(a), dataset(b), tol, skip, path, None, types)
    return None if type(a) is type(b) and a == b else "%s: %r and %r" % (path, str(a)[:80], str(b)[:80])


def dataset(m):
    """Content of a mesh."""
    out = {"class": type(m).__name__, "points": np.array(m.points), "bounds": np.array(m.bounds), "n_cells": int(m.n_cells)}
    for k in m.point_data.keys():
        out["p:"+str(k)] = np.array(m.point_data[k])
    for k in m.cell_data.keys():
        out["c:"+str(k)] = np.array(m.cell_data[k])
    return out


def snapshot(x):
    """Exact copy of an argument (types, values, keys and their order)."""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.flags.writeable, np.ascontiguousarray(x).tobytes() if x.dtype.kind != "O" else [snapshot(v) for v in x.ravel()])
    if isinstance(x, pv.DataSet):
        return ("mesh", snapshot({k: v for k, v in dataset(x).items()}))
    if isinstance(x, (float, complex, np.number)):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, repr(x) if not isinstance(x, (str, int, bool, type(None))) else x)


def where(a, b, path=""):
    """Where two snapshots differ."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "dict" and [k for k, _ in a[2]] == [k for k, _ in b[2]]:
        for (k, v), (_, w) in zip(a[2], b[2]):
            r = where(v, w, path+"/"+str(k))
            if r:
                return r
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ("list", "tuple") and len(a[1]) == len(b[1]):
        for k, (v, w) in enumerate(zip(a[1], b[1])):
            r = where(v, w, "%s[%d]" % (path, k))
            if r:
                return r
    return path or "/"


def freeze(x):
    """Make all the arrays of an argument read-only."""
    if isinstance(x, dict):
        for v in x.values():
            freeze(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)
    elif isinstance(x, np.ndarray):
        x.flags.writeable = False
    return x


# ---------------------------------------------------------------------- plots
SIMPLE = (str, int, float, bool, type(None), list, tuple, np.number, np.ndarray)


def plot_signature(events):
    """What was plotted, as comparable data."""
    out = []
    for e in events:
        if e[0] == "plotter":
            p = e[1]
            one = {"kind": "plotter", "log": []}
            for x in p.vp_log:
                if x[0] == "mesh":
                    kw = {k: (list(v) if isinstance(v, tuple) else v) for k, v in x[2].items() if isinstance(v, SIMPLE)}
                    one["log"].append({"mesh": dataset(x[1]) if isinstance(x[1], pv.DataSet) else type(x[1]).__name__, "kw": kw, "clip": bool(x[3])})
                else:
                    one["log"].append({"text": str(x[1]), "kw": {k: v for k, v in x[2].items() if isinstance(v, SIMPLE)}})
            try:
                one["bg"] = [float(v) for v in p.background_color.float_rgb]
                one["size"] = [int(v) for v in p.window_size]
                cam = p.camera
                one["camera"] = [float(v) for v in tuple(cam.position)+tuple(cam.focal_point)+tuple(cam.up)]
            except Exception as ex:
                one["bg"] = repr(type(ex))
            out.append(one)
        elif e[0] == "figure":
            f = e[1]
            one = {"kind": "figure", "face": [float(v) for v in f.get_facecolor()], "size": [float(v) for v in f.get_size_inches()], "dpi": float(f.dpi), "axes": []}
            for ax in f.axes:
                d = {"face": [float(v) for v in ax.get_facecolor()], "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                     "font": float(ax.xaxis.label.get_size()), "tick": [float(t.get_size()) for t in ax.get_xticklabels()[:1]], "tfont": float(ax.title.get_size()),
                     "grid": bool(any(g.get_visible() for g in ax.get_xgridlines())), "xscale": ax.get_xscale(), "yscale": ax.get_yscale(),
                     "lines": [{"x": np.asarray(l.get_xdata(), float), "y": np.asarray(l.get_ydata(), float), "c": str(l.get_color()), "w": float(l.get_linewidth()),
                                "m": float(l.get_markersize()), "mk": str(l.get_marker()), "ls": str(l.get_linestyle())} for l in ax.get_lines()],
                     "patches": [[float(v) for v in p.get_path().get_extents(p.get_patch_transform()).bounds]+[float(v) for v in p.get_facecolor()]+[float(v) for v in p.get_edgecolor()] for p in ax.patches],
                     "legend": [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None}
                one["axes"].append(d)
            out.append(one)
    return out
