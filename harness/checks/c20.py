"""C20: invalid input is rejected, accepted variations are not."""
import copy
import os
import numpy as np
import pypeec
import plotlib
import gen, lib, meshlib, model, spec
from core import jsonable

RULE = ("valid mesher, solver, viewer and plotter inputs; every single violation derived from a hand-written description of the formats (missing keys, wrong types, empty or wrongly sized containers, unknown options, values out of "
        "range) and injected semantic violations (names, indices, overlaps, sources, sizes, sweeps) must raise; through the files and the command line they must leave no new output and give a failure code; "
        "accepted variations (NumPy types, null values, order of keys) must give the same result; every evaluation is one injected violation or variation of a distinct base")
ASSUMPTIONS = ["an integer for a number (or a boolean for a number) and NaN are not judged", "signs of material values are not judged (the documentation only says 'should')", "sources or materials on a domain without voxels are judged only if nothing is left",
               "text that is a number is not judged for material and source values", "a vector variable in a scalar phasor plot is not judged", "conductors without a source that touch a magnetic part connected to a source are not judged"]


def bases(rng, scratch, i):
    """Small valid geometries of the four kinds."""
    from checks import c13, c14, c15
    import PIL.Image
    kind = ["voxel", "png", "shape", "stl"][i % 4]
    pts = [[10.0, 10.0, 10.0], [9.0, -8.0, 7.5]]
    com = dict(
        data_point={"check_cloud": True, "full_cloud": True, "pts_cloud": pts},
        data_resampling={"use_reduce": bool(rng.integers(2)), "use_resample": bool(rng.integers(2)), "resampling_factor": [1, 2, 1]},
        data_conflict={"resolve_rules": True, "resolve_random": bool(rng.integers(2)), "conflict_rules": [{"domain_resolve": ["dom_b"], "domain_keep": ["dom_a"]}]},
        data_integrity={"domain_connected": {"c": {"connected": True, "domain_group": [["dom_a"], ["dom_b"]]}}, "domain_adjacent": {"t": {"connected": True, "domain_group": [["dom_a"], ["dom_b"]]}}})
    if kind == "voxel":
        g = gen.geometry([3, 2, 2], [0.1, 0.2, 0.3], [0.0, 0.1, -0.1], {"dom_a": [0, 1], "dom_b": [2, 3, 4]}, pts, **com)
    elif kind == "png":
        img = np.zeros((2, 3, 4), np.uint8)
        img[...] = [255, 255, 255, 255]
        img[0, 0] = [255, 0, 0, 255]
        img[0, 1] = [0, 0, 255, 255]
        path = os.path.join(scratch, "b%d.png" % i)
        PIL.Image.fromarray(img, "RGBA").save(path)
        g = c13.geometry([0.1, 0.1, 0.2], [0.0, 0.0, 0.0], [3, 2], {"dom_a": [[255, 0, 0, 255]], "dom_b": [[0, 0, 255, 255]]},
                         [{"n_layer": 1, "filename_list": [path]}, {"n_layer": 2, "filename_list": [path]}], **com)
    elif kind == "shape":
        rect = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]
        sh = [{"shape_layer": ["l"], "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": 0.0, "coord_shell": rect, "coord_holes": [[[0.4, 0.4], [0.6, 0.4], [0.6, 0.6]]]}},
              {"shape_layer": ["l", "m"], "shape_operation": "add", "shape_type": "trace", "shape_data": {"width": 0.5, "coord": [[0.0, 0.0], [1.0, 0.0]]}},
              {"shape_layer": ["m"], "shape_operation": "add", "shape_type": "pad", "shape_data": {"diameter": 0.8, "coord": [[0.5, 0.5]]}}]
        k = int(rng.integers(3))
        sh = sh[k:]+sh[:k]
        b = [{"shape_layer": ["l", "m"], "shape_operation": "add", "shape_type": "polygon", "shape_data": {"buffer": 0.0, "coord_shell": [[1.0, 0.0], [2.0, 0.0], [2.0, 1.0], [1.0, 1.0]], "coord_holes": [[[1.4, 0.1], [1.6, 0.1], [1.6, 0.3], [1.4, 0.3]]]}}]
        g = c14.geometry({"dx": 0.1, "dy": 0.1, "dz": 0.3, "cz": 0.0, "simplify": None, "construct": None, "xy_min": [-0.5, -0.5], "xy_max": [2.5, 1.5]},
                         [{"n_layer": 1, "tag_layer": "l"}, {"n_layer": 2, "tag_layer": "m"}], {"dom_a": sh, "dom_b": b}, **com)
    else:
        import pyvista as pv
        fa, fb = os.path.join(scratch, "a%d.stl" % i), os.path.join(scratch, "b%d.stl" % i)
        pv.Box((0, 1, 0, 1, 0, 1)).triangulate().save(fa)
        pv.Box((1, 2, 0, 1, 0, 1)).triangulate().save(fb)
        g = c15.geometry([0.25, 0.25, 0.25], [0.0, 0.0, 0.0], [2.0, 1.0, 1.0], {"dom_a": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": fa}],
                                                                               "dom_b": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": fb}]}, **com)
    return kind, g


def setp(x, path, v):
    x = copy.deepcopy(x)
    y = x
    for k in path[:-1]:
        y = y[k]
    y[path[-1]] = v
    return x


def numpyfy(x, rng):
    """The same content with NumPy types and another order of the keys."""
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: numpyfy(x[k], rng) for k in keys}
    if isinstance(x, list):
        if x and all(isinstance(v, float) for v in x) and rng.random() < 0.6:
            return np.array(x)
        if x and all(isinstance(v, int) and not isinstance(v, bool) for v in x) and rng.random() < 0.6:
            return np.array(x, dtype=[np.int64, np.int32][int(rng.integers(2))])
        if x and all(isinstance(v, list) and v and all(isinstance(w, float) for w in v) for v in x) and len({len(v) for v in x}) == 1 and rng.random() < 0.6:
            return np.array(x)
        return [numpyfy(v, rng) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, float) and rng.random() < 0.5:
        return np.float64(x)
    if isinstance(x, int) and rng.random() < 0.5:
        return np.int64(x)
    return x


FAST = gen.tol(solver_options={"direct_options": {"rel_tol": 1e-6, "n_inner": 20, "n_outer": 10}, "segregated_options": {"n_max": 10}}, condition_options={"check": True})


def geom_rules(rng, kind, g):
    """Semantic violations of a geometry: (what, geometry)."""
    v = g["data_voxelize"]
    out = []
    dom = {"voxel": "domain_index", "png": "domain_color", "shape": "geometry_shape", "stl": "domain_stl"}[kind]
    bad = str(rng.choice(["dom_z", "dom", "DOM_A", "dom_a "]))
    rules = g["data_conflict"]["conflict_rules"]
    for side in ("domain_resolve", "domain_keep"):
        r = copy.deepcopy(rules)
        r[0][side] = ["dom_a", bad][::int(rng.choice([-1, 1]))] if rng.random() < 0.5 else [bad]
        if side == "domain_resolve" and "dom_a" in r[0][side]:
            r[0]["domain_keep"] = ["dom_b"]
        out.append(("unknown domain in a conflict rule", setp(g, ("data_conflict", "conflict_rules"), r)))
    for w in ("domain_connected", "domain_adjacent"):
        for grp in ([["dom_a"], [bad]], [["dom_a", bad], ["dom_b"]]):
            out.append(("unknown domain in the integrity check", setp(g, ("data_integrity", w), {"x": {"connected": bool(rng.integers(2)), "domain_group": grp}})))
        good = copy.deepcopy(g["data_integrity"][w])
        first = list(good)[0]
        wrong = copy.deepcopy(good)
        wrong[first]["connected"] = False
        out.append(("violated integrity rule", setp(g, ("data_integrity", w), wrong)))
        more = dict(good)
        more["second"] = {"connected": False, "domain_group": [["dom_a"], ["dom_b"]]}
        out.append(("violated second integrity rule", setp(g, ("data_integrity", w), more)))
    # a cloud point inside a domain
    inside = {"voxel": [-0.1, 0.0, -0.25], "png": [-0.1, -0.05, 0.0], "shape": [1.5, 0.5, 0.0], "stl": [0.6, 0.6, 0.6]}[kind]
    p = copy.deepcopy(g["data_point"])
    p["pts_cloud"] = p["pts_cloud"]+[inside]
    alt = copy.deepcopy(p)
    alt["pts_cloud"] = alt["pts_cloud"][::-1]
    out.append(("point inside the structure with full cloud", setp(g, ("data_point",), p if rng.random() < 0.5 else alt)))
    # overlap without resolution
    h = setp(g, ("data_conflict",), {"resolve_rules": False, "resolve_random": False, "conflict_rules": []})
    h["data_voxelize"][dom]["dom_c"] = copy.deepcopy(v[dom]["dom_b"])
    if kind == "png":
        # the same colour twice means the same voxels twice
        pass
    out.append(("overlapping domains without resolution", h))
    if kind == "voxel":
        N = int(np.prod(v["param"]["n"]))
        for bad_i in (N, N+7):
            out.append(("index outside the grid", setp(g, ("data_voxelize", "domain_index", "dom_b"), [2, bad_i])))
        out.append(("repeated index", setp(g, ("data_voxelize", "domain_index", "dom_a"), [0, 1, 0])))
        part = setp(g, ("data_conflict",), {"resolve_rules": False, "resolve_random": False, "conflict_rules": []})
        part["data_voxelize"]["domain_index"]["dom_c"] = [5, 4]
        out.append(("partly overlapping domains without resolution", part))
        rul = setp(g, ("data_voxelize", "domain_index", "dom_c"), [5, 4])
        rul["data_conflict"].update({"resolve_rules": True, "resolve_random": False})
        out.append(("overlap that is not covered by the rules", rul))
    if kind == "png":
        st = copy.deepcopy(v["layer_stack"])
        st[1]["filename_list"] = [st[0]["filename_list"][0]+".missing"]
        out.append(("missing image", setp(g, ("data_voxelize", "layer_stack"), st)))
        for size in ([2, 3], [3, 3], [6, 1]):
            out.append(("image size differs", setp(g, ("data_voxelize", "param", "size"), size)))
    if kind == "shape":
        st = copy.deepcopy(v["layer_stack"])
        st[1]["tag_layer"] = st[0]["tag_layer"]
        out.append(("repeated layer name", setp(g, ("data_voxelize", "layer_stack"), st)))
        out.append(("empty grid", setp(g, ("data_voxelize", "param", "xy_max"), [-0.5, -0.5])))
        out.append(("inverted grid", setp(g, ("data_voxelize", "param", "xy_max"), [2.5, -1.5])))
        out.append(("inverted grid", setp(g, ("data_voxelize", "param", "xy_max"), [-2.5, 1.5])))
        out.append(("inverted grid", setp(g, ("data_voxelize", "param", "xy_max"), [-2.5, -2.5])))
        tag = list(v["geometry_shape"])[0]
        k = [j for j, s in enumerate(v["geometry_shape"][tag]) if s["shape_type"] == "polygon"][0]
        sh = copy.deepcopy(v["geometry_shape"])
        sh[tag][k]["shape_data"]["coord_shell"] = [[0.0, 0.0], [1.0, 1.0], [1.0, 0.0], [0.0, 1.0]]
        sh[tag][k]["shape_data"].update({"coord_holes": [], "buffer": None})
        out.append(("self-intersecting polygon", setp(g, ("data_voxelize", "geometry_shape"), sh)))
        sh = copy.deepcopy(v["geometry_shape"])
        sh[tag][k]["shape_data"]["coord_shell"] = [[0.0, 0.0], [1.0, 1.0]]
        out.append(("polygon with two points", setp(g, ("data_voxelize", "geometry_shape"), sh)))
    if kind == "stl":
        st = copy.deepcopy(v["domain_stl"])
        st["dom_b"][0]["filename"] += ".missing.stl"
        out.append(("missing STL file", setp(g, ("data_voxelize", "domain_stl"), st)))
        text = v["domain_stl"]["dom_a"][0]["filename"]+".txt.stl"
        with open(text, "w") as f:
            f.write("no solid at all\n")
        st = copy.deepcopy(v["domain_stl"])
        st["dom_b"][0]["filename"] = text
        out.append(("no STL file", setp(g, ("data_voxelize", "domain_stl"), st)))
        out.append(("inverted grid", setp(g, ("data_voxelize", "param", "xyz_max"), [2.0, -1.0, 1.0])))
        out.append(("empty grid", setp(g, ("data_voxelize", "param", "xyz_max"), [2.0, 0.0, 1.0])))
    return out


def solver_rules(rng, P, vox):
    """Semantic violations of a problem: (what, problem, voxel data)."""
    out = []
    good = gen.data_problem(P)
    add = lambda what, prob=None, v=None: out.append((what, prob if prob is not None else copy.deepcopy(good), v if v is not None else vox))
    pick = lambda x: str(rng.choice(list(x)))
    md, sd = good["material_def"], good["source_def"]
    par = good["sweep_solver"]["sim"]["param"]
    bad = str(rng.choice(["nodom", "", list(P["dom"])[0]+"x", list(P["dom"])[0].upper()]))
    for sec in ("material_def", "source_def"):
        t = pick(good[sec])
        d = good[sec][t]["domain_list"]
        add("unknown domain in %s" % sec, setp(good, (sec, t, "domain_list"), d+[bad]))
        add("unknown domain in %s" % sec, setp(good, (sec, t, "domain_list"), [bad]+d[1:]))
        add("domain listed twice in %s" % sec, setp(good, (sec, t, "domain_list"), d+[d[0]]))
    # voxels in two materials of the same nature
    for nature in ("electric", "magnetic"):
        used = [x for x in md if md[x]["material_type"] in (nature, "electromagnetic")]
        if used:
            t = pick(used)
            mt = nature
            p = copy.deepcopy(good)
            p["material_def"]["extra"] = {"domain_list": [pick(md[t]["domain_list"])], "material_type": mt, "orientation_type": "isotropic", "var_type": "lumped"}
            p["sweep_solver"]["sim"]["param"]["material_val"]["extra"] = {"rho_re": 1e-8, "rho_im": 0.0} if mt == "electric" else {"chi_re": 10.0, "chi_im": 0.0}
            add("voxel in two %s materials" % nature, p)
    # voxels in two sources
    t = pick(sd)
    for typ in ("current", "voltage"):
        p = copy.deepcopy(good)
        p["source_def"]["extra"] = {"domain_list": [pick(sd[t]["domain_list"])], "source_type": typ, "var_type": "lumped"}
        p["sweep_solver"]["sim"]["param"]["source_val"]["extra"] = {"I_re": 0.0, "I_im": 0.0, "Y_re": 1.0, "Y_im": 0.0} if typ == "current" else {"V_re": 1.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}
        add("voxel in two sources", p)
    # sources outside of conductors
    cond = {x for m in md.values() if m["material_type"] != "magnetic" for x in m["domain_list"]}
    out_dom = [x for x in P["dom"] if x not in cond and P["dom"][x]]
    for typ in ("current", "voltage"):
        if out_dom:
            p = copy.deepcopy(good)
            p["source_def"]["extra"] = {"domain_list": [pick(out_dom)], "source_type": typ, "var_type": "lumped"}
            p["sweep_solver"]["sim"]["param"]["source_val"]["extra"] = {"I_re": 1.0, "I_im": 0.0, "Y_re": 1.0, "Y_im": 0.0} if typ == "current" else {"V_re": 1.0, "V_im": 0.0, "Z_re": 1.0, "Z_im": 0.0}
            add("source outside of the conductors", p)
    # a conductor without a source: remove all the sources of a component of the mesh
    graph = vox["data_geom"]["graph_def"]
    cv = {x for t in cond for x in P["dom"][t]}
    parts = [set(int(x) for x in np.ravel(q)) for q in (graph.values() if isinstance(graph, dict) else graph)]
    parts = [q for q in parts if q & cv]
    q = parts[int(rng.integers(len(parts)))]
    p = copy.deepcopy(good)
    for t in list(p["source_def"]):
        keep = [x for x in p["source_def"][t]["domain_list"] if not set(P["dom"][x]) & q]
        if len(keep) < len(p["source_def"][t]["domain_list"]):
            del p["source_def"][t]
            del p["sweep_solver"]["sim"]["param"]["source_val"][t]
    # other components may lose a shared source too: also without a source
    add("conductor without a source", p)
    # values
    for sec, val in (("material_def", "material_val"), ("source_def", "source_val")):
        t = pick(good[sec])
        p = copy.deepcopy(good)
        del p["sweep_solver"]["sim"]["param"][val][t]
        add("values of %s are missing" % sec, p)
        p = copy.deepcopy(good)
        x = p["sweep_solver"]["sim"]["param"][val]
        x[t+"_"] = x.pop(t)
        add("values of %s have another name" % sec, p)
        vals = par[val][t]
        for k in vals:
            p = copy.deepcopy(good)
            del p["sweep_solver"]["sim"]["param"][val][t][k]
            add("value %s is missing" % k, p)
        other = {"rho_re": "chi_re", "rho_im": "chi_im", "chi_re": "rho_re", "chi_im": "rho_im", "I_re": "V_re", "I_im": "V_im", "V_re": "I_re", "V_im": "I_im", "Y_re": "Z_re", "Y_im": "Z_im", "Z_re": "Y_re", "Z_im": "Y_im"}
        if good[sec][t].get("material_type") != "electromagnetic":
            p = copy.deepcopy(good)
            p["sweep_solver"]["sim"]["param"][val][t] = {other[k]: v for k, v in vals.items()}
            add("values of the other kind for %s" % sec, p)
        N = sum(len(P["dom"][x]) for x in good[sec][t]["domain_list"])
        k = pick(vals)
        dist = good[sec][t]["var_type"] == "distributed"
        aniso = good[sec][t].get("orientation_type") == "anisotropic"
        x = vals[k]
        path = ("sweep_solver", "sim", "param", val, t, k)
        if dist:
            add("too many values", setp(good, path, list(x)+[x[-1]]))
            add("no value", setp(good, path, []))
            if N > 1:
                add("too few values", setp(good, path, list(x)[:-1]))
                add("one value for a distributed quantity", setp(good, path, x[0] if not aniso else x[0][0]))
            add("twice the values", setp(good, path, list(x)+list(x)))
            if aniso:
                add("directions are missing", setp(good, path, [r[:2] for r in x]))
                add("too many directions", setp(good, path, [r+[r[0]] for r in x]))
                if N != 3:
                    add("array is transposed", setp(good, path, [list(r) for r in zip(*x)]))
                    add("directions are missing", setp(good, path, [r[0] for r in x]))
            elif val == "material_val" and N > 1:
                add("directions for an isotropic material", setp(good, path, [[r]*3 for r in x]))
        elif aniso:
            add("directions are missing", setp(good, path, x[:2]))
            add("too many directions", setp(good, path, x+[x[0]]))
            add("one value for an anisotropic material", setp(good, path, x[0]))
            if N > 1:
                add("values per voxel for a lumped material", setp(good, path, [x]*N))
        else:
            add("array for a lumped value", setp(good, path, [x]*3))
            add("array for a lumped value", setp(good, path, [x]*max(N, 2)))
            add("array for a lumped value", setp(good, path, [[x]*3]*max(N, 2)))
        add("text for a value", setp(good, path, "abc"))
    # sweeps
    s = good["sweep_solver"]["sim"]
    mk = lambda d: {**copy.deepcopy(good), "sweep_solver": {k: {**copy.deepcopy(s), "init": v} for k, v in d.items()}}
    add("unknown initial sweep", mk({"a": None, "b": "c"}))
    add("sweep depends on itself", mk({"a": None, "b": "b"}))
    add("cyclic sweeps", mk({"a": "b", "b": "a"}))
    add("cyclic sweeps", mk({"x": None, "a": "b", "b": "c", "c": "a"}))
    add("negative frequency", setp(good, ("sweep_solver", "sim", "param", "freq"), -float(10**rng.uniform(-3, 6))))
    add("no source at all", {**copy.deepcopy(good), "source_def": {}})
    # voxel data that was not created by the mesher
    for key in ("status", "data_geom"):
        v = {k: x for k, x in vox.items() if k != key}
        add("voxel data without %s" % key, None, v)
    for key in ("n", "d", "c", "domain_def", "graph_def"):
        v = dict(vox)
        v["data_geom"] = {k: x for k, x in vox["data_geom"].items() if k != key}
        add("voxel data without %s" % key, None, v)
    add("no voxel data", None, None if False else [1])
    add("geometry instead of voxel data", None, gen.geometry(P["n"], P["d"], P["c"], P["dom"]))
    return out


def run(ctx):
    plotlib.install()

    def reject(fn, args, what, desc):
        ctx.evaluations += 1
        ctx.cur["case"] = desc
        ctx.nontrivial.add(hash((desc if isinstance(desc, str) else repr(desc)[:2000], what)) & 0xffffffff)
        ctx.count("injected")
        try:
            fn(*args)
        except Exception as ex:
            ctx.count("raised:"+type(ex).__name__)
            ctx.count("assertions")
            return
        ctx.count("assertions")
        ctx.fail("invalid input accepted: %s" % what)

    def sweep_spec(tree, val, rng, fn, kind, base, keep=1.0):
        for path, what, y in spec.invalid(tree, val, rng):
            if keep < 1 and rng.random() > keep:
                continue
            reject(fn, (y,), "%s: %s at %s" % (kind, what, "/".join(map(str, path)) or "top"), {"kind": kind, "base": base, "path": list(map(str, path)), "what": what})

    # ---------------------------------------------------------------- mesher
    def mesher(rng, i):
        kind, g = bases(rng, ctx.scratch, i)
        ctx.case({"kind": kind, "geometry": g}, True)
        ctx.call(pypeec.run_mesher_data, g)
        sweep_spec(spec.GEOMETRY, g, rng, pypeec.run_mesher_data, kind, i)
        for what, h in geom_rules(rng, kind, g):
            reject(pypeec.run_mesher_data, (h,), "%s: %s" % (kind, what), {"kind": kind, "what": what, "geometry": h})

    # ---------------------------------------------------------------- solver
    def solver(rng, i):
        P = gen.random_problem(rng)
        # an unused domain
        free = sorted(set(range(int(np.prod(P["n"]))))-{v for x in P["dom"].values() for v in x})
        if free and rng.random() < 0.5:
            P["dom"]["unused"] = [free[0]]
        vox = lib.mesh(ctx, P)
        prob = gen.data_problem(P)
        tol = gen.merge(FAST, {"solver_options": {"coupling": str(rng.choice(["direct", "segregated"]))}, "mult_type": str(rng.choice(["fft", "direct"]))})
        ctx.case({"problem": gen.describe(P)}, True)
        ctx.call(pypeec.run_solver_data, vox, prob, tol)
        for what, p, v in solver_rules(rng, P, vox):
            reject(pypeec.run_solver_data, (v, p, tol), "problem: "+what, {"what": what, "problem": p, "geometry": gen.describe(P)})
        # a separate conductor of one or several voxels without a source, before or after the structure
        k = int(rng.choice([1, 1, 2, 3]))
        n, shift = list(P["n"]), int(rng.integers(2))*2
        n2 = [n[0]+2, max(n[1], 6), n[2]]
        move = lambda v: model.lin(n2, np.array(model.unlin(n, v))+[shift, 0, 0])
        far = [model.lin(n2, [n2[0]-1 if shift == 0 else 0, y, 0]) for y in range(k)]
        Q = copy.deepcopy(P)
        Q["n"], Q["dom"] = n2, {t: [int(move(v)) for v in x] for t, x in P["dom"].items()}
        Q["dom"]["separate"] = [int(x) for x in far]
        em = bool(rng.random() < 0.3)
        Q["material_def"]["separate"] = {"domain_list": ["separate"], "material_type": "electromagnetic" if em else "electric", "orientation_type": "isotropic", "var_type": "lumped"}
        Q["param"]["material_val"]["separate"] = {"rho_re": 1e-8, "rho_im": 0.0, **({"chi_re": 5.0, "chi_im": 0.0} if em else {})}
        if rng.random() < 0.5:
            # with a larger magnetic body which touches it
            Q["dom"]["separate core"] = [int(model.lin(n2, [n2[0]-1 if shift == 0 else 0, y, 0])) for y in range(k, n2[1])]
            Q["material_def"]["separate core"] = {"domain_list": ["separate core"], "material_type": "magnetic", "orientation_type": "isotropic", "var_type": "lumped"}
            Q["param"]["material_val"]["separate core"] = {"chi_re": 5.0, "chi_im": 0.0}
        v2 = lib.mesh(ctx, Q)
        p2 = gen.data_problem(Q)
        reject(pypeec.run_solver_data, (v2, p2, tol), "problem: a separate conductor without a source (%d voxels)" % k, {"problem": p2, "geometry": gen.describe(Q)})
        # the same structure is accepted if the separate conductor has a source
        p2["source_def"]["separate"] = {"domain_list": ["separate"], "source_type": "current", "var_type": "lumped"}
        for s in p2["sweep_solver"].values():
            s["param"]["source_val"]["separate"] = {"I_re": 0.0, "I_im": 0.0, "Y_re": 1.0, "Y_im": 0.0}
        ctx.call(pypeec.run_solver_data, v2, p2, tol)
        sweep_spec(spec.PROBLEM, prob, rng, lambda y: pypeec.run_solver_data(vox, y, tol), "problem", i)
        sweep_spec(spec.tolerance(tol), tol, rng, lambda y: pypeec.run_solver_data(vox, prob, y), "tolerance", i, 1.0 if i % 3 == 0 else 0.3)

    # ---------------------------------------------------------------- plots
    def plots(rng, i):
        P = gen.random_problem(rng)
        pts = lib.outside_points(rng, P, int(rng.integers(0, 3)))
        vox = lib.mesh(ctx, P, pts)
        viewer = bool(i % 2)
        if viewer:
            layouts, tree, data, fn = spec.LAYOUT_VIEWER, spec.VIEWER, vox, pypeec.run_viewer_data
        else:
            layouts, tree, fn = spec.LAYOUT_PLOTTER, spec.PLOTTER, pypeec.run_plotter_data
            data = ctx.call(pypeec.run_solver_data, vox, gen.data_problem(P), FAST)
        layouts = [x for x in layouts if x != "phasor_point"]
        layout = layouts[(i//2) % len(layouts)]
        cfg = {"p": (plotlib.viewer_plot if viewer else plotlib.plotter_plot)(rng, layout, "T")}
        for k in ("color_lim", "filter_lim", "clamp_lim"):
            if k in cfg["p"]["data_plot"] and rng.random() < 0.8:
                cfg["p"]["data_plot"][k] = [-1e30, 1e30] if k != "color_lim" else [0.0, 1.0]
        ctx.case({"layout": layout, "cfg": cfg}, True)

        def go(c, d=data, **kw):
            plotlib.take()
            try:
                fn(d, c, plot_mode="debug", **kw)
            finally:
                plotlib.release(plotlib.take())
        ctx.call(go, cfg)
        sweep_spec(tree, cfg, rng, go, layout, i)
        other = "pyvista" if cfg["p"]["framework"] == "matplotlib" else "matplotlib"
        c = setp(cfg, ("p", "framework"), other)
        reject(go, (c,), "%s: framework does not fit the layout" % layout, c)
        c["p"]["data_options"] = plotlib.opt_mpl(rng) if other == "matplotlib" else plotlib.opt_pyvista(rng)
        reject(go, (c,), "%s: framework does not fit the layout" % layout, c)
        if "var" in cfg["p"]["data_plot"]:
            point = layout.endswith("point")
            bad = ["X_c", "", "j_c", "V", "rho"]+(["V_c", "J_c"] if point else ["H_p"])
            if layout.startswith("arrow"):
                bad += ["V_c", "P_c", "S_c"]
            if point and not len(pts):
                bad = []
            for b in bad:
                reject(go, (setp(cfg, ("p", "data_plot", "var"), b),), "%s: unknown variable %r" % (layout, b), {"layout": layout, "var": b})
        for kw in ({"tag_plot": ["q"]}, {"tag_plot": ["p", "q"]}, {"tag_plot": "p"}, {"tag_plot": [3]}, {"folder": ""}, {"folder": 3}, {"name": ""}, {"name": ["x"]}):
            reject(lambda: go(cfg, **kw), (), "plot argument %r" % kw, {"layout": layout, "kw": kw})
        if not viewer:
            for kw in ({"tag_sweep": ["q"]}, {"tag_sweep": ["sim", "q"]}, {"tag_sweep": "sim"}):
                reject(lambda: go(cfg, **kw), (), "plot argument %r" % kw, {"layout": layout, "kw": kw})
        for key in (("data_geom",) if viewer else ("data_init", "data_sweep")):
            d = {k: x for k, x in data.items() if k != key}
            reject(go, (cfg, d), "data without %s" % key, {"layout": layout, "key": key})
        reject(go, (cfg, [1]), "no data", {"layout": layout})

    # ---------------------------------------------------------------- files and command line
    def files(rng, i):
        import scisave
        from pypeec.script import run_arguments
        root = os.path.join(ctx.scratch, "f%d" % i)
        os.makedirs(root)
        w = lambda name, x: scisave.write_config(os.path.join(root, name), jsonable(x)) if hasattr(scisave, "write_config") else None
        import json

        def put(name, x):
            with open(os.path.join(root, name), "w") as f:
                json.dump(jsonable(x), f)
            return os.path.join(root, name)
        P = gen.random_problem(rng, nmax=(3, 3, 3))
        g = gen.geometry(P["n"], P["d"], P["c"], P["dom"])
        vox = ctx.call(pypeec.run_mesher_data, g)
        fv = os.path.join(root, "vox.pickle")
        scisave.write_data(fv, vox)
        prob = gen.data_problem(P)
        solve = bool(i % 2)
        if solve:
            opts = [(w_, p, v) for w_, p, v in solver_rules(rng, P, vox) if v is vox and isinstance(p, dict)]
            what, bad, _ = opts[int(rng.integers(len(opts)))]
            good_in, bad_in = put("good.json", prob), put("bad.json", bad)
            ft = put("tol.json", FAST)
        else:
            kind, g2 = bases(rng, root, i//2)
            opts = geom_rules(rng, kind, g2)
            what, bad = opts[int(rng.integers(len(opts)))]
            good_in, bad_in = put("good.json", g2), put("bad.json", bad)
        broken = os.path.join(root, "broken.json")
        with open(broken, "w") as f:
            f.write('{"a": [1, 2')
        ext = str(rng.choice([".json", ".json.gz", ".pickle", ".mpk" if False else ".pkl" if False else ".json"]))
        for inp, expect in ((good_in, True), (bad_in, False), (broken, False), (os.path.join(root, "missing.json"), False)):
            for how in ("file", "cli"):
                res = os.path.join(root, "out_%s_%s%s" % (os.path.basename(inp)[:-5], how, ext))
                old = rng.random() < 0.4
                if old:
                    with open(res, "wb") as f:
                        f.write(b"old content")
                before = set(os.listdir(root))
                ctx.case({"what": what, "input": os.path.basename(inp), "how": how, "old": old, "i": i}, True)
                err = None
                rc = None
                try:
                    if how == "file":
                        if solve:
                            pypeec.run_solver_file(fv, inp, ft, res)
                        else:
                            pypeec.run_mesher_file(inp, res)
                    else:
                        argv = (["solver", "-vo", fv, "-pr", inp, "-to", ft, "-so", res] if solve else ["mesher", "-ge", inp, "-vo", res])
                        rc = run_arguments(["-q"]+argv)
                except (Exception, SystemExit) as ex:
                    err = ex
                code = rc if not isinstance(err, SystemExit) else err.code
                failed = err is not None and not isinstance(err, SystemExit) if how == "file" else (code != 0 or (err is not None and not isinstance(err, SystemExit)))
                if how == "cli":
                    ctx.expect(err is None or isinstance(err, SystemExit), "the command line gives a return code", got=repr(err))
                    ctx.expect((code == 0) == expect, "return code of the command line", got=code, what=what, input=os.path.basename(inp))
                else:
                    ctx.expect((err is None) == expect, "file function raises for invalid input only", got=repr(err), what=what)
                new = set(os.listdir(root))-before
                if expect:
                    ctx.expect(os.path.exists(res) and open(res, "rb").read() != b"old content", "output is written for valid input")
                else:
                    ctx.expect(not new, "no file is written for invalid input", got=sorted(new), what=what)
                    if old:
                        ctx.expect(open(res, "rb").read() == b"old content", "an existing file is kept for invalid input", what=what)
                ctx.count("file_runs")

    # ---------------------------------------------------------------- accepted variations
    def accepted(rng, i):
        kind, g = bases(rng, ctx.scratch, i)
        if kind == "shape" and rng.random() < 0.5:
            g["data_voxelize"]["param"].update({"cz": None, "simplify": None, "construct": None, "xy_min": None, "xy_max": None})
        if kind == "stl" and rng.random() < 0.5:
            g["data_voxelize"]["param"].update({"xyz_min": None, "xyz_max": None})
        g["data_conflict"]["resolve_random"] = False
        ctx.case({"kind": kind, "geometry": g}, True)
        a = ctx.call(pypeec.run_mesher_data, g)["data_geom"]
        h = numpyfy(g, rng)
        b = ctx.call(pypeec.run_mesher_data, h)["data_geom"]
        ctx.expect(list(a["n"]) == list(b["n"]) and {k: sorted(v) for k, v in meshlib.doms(a).items()} == {k: sorted(v) for k, v in meshlib.doms(b).items()}, "equivalent geometry gives the same mesh", kind=kind)
        ctx.close(np.array(b["d"], float), np.array(a["d"], float), 1e-12, "voxel size of the equivalent geometry")
        P = gen.random_problem(rng)
        # decided by the residual: the tight tolerance of the iterative solver is not always reached
        tol = gen.tol(solver_options={"tolerance_options": {"ignore_status": True, "ignore_res": False, "rel_tol": 1e-6}}, fft_options={"fftw_timeout": None, "fftw_byte_align": None}, parallel_sweep={"n_threads": None}, factorization_options={"pardiso_options": {"thread_pardiso": None, "thread_mkl": None}})
        vox = lib.mesh(ctx, P)
        prob = gen.data_problem(P)
        s1 = ctx.call(pypeec.run_solver_data, vox, prob, tol)
        vox2 = dict(vox)
        s2 = ctx.call(pypeec.run_solver_data, vox2, numpyfy(prob, rng), numpyfy(tol, rng))
        o1, o2 = s1["data_sweep"]["sim"], s2["data_sweep"]["sim"]
        ctx.case({"problem": gen.describe(P)}, True)
        if o1["has_converged"] and o2["has_converged"]:
            lib.compare_scalars(ctx, o1, o2, lib.View(P, o1).scales(), 1e-6, "equivalent types")
        else:
            ctx.expect(o1["has_converged"] == o2["has_converged"], "equivalent input converges equally", a=[o1["solver_ok"], o1["condition_ok"], o1["solver_status"], o1["condition_status"]], b=[o2["solver_ok"], o2["condition_ok"], o2["solver_status"], o2["condition_status"]], problem=gen.describe(P))
        # plots with null values
        lay = str(rng.choice(["domain", "graph", "mesh"]))
        cfg = plotlib.viewer_plot(rng, lay, "T")
        cfg["data_plot"]["title"] = None
        cfg["data_window"].update({"image_size": None, "window_size": None, "notebook_size": None})
        cfg["data_options"]["plot_view"].update({"camera_roll": None, "camera_azimuth": None, "camera_elevation": None})
        lay = str(rng.choice(["material", "norm_voxel", "phasor_voxel", "arrow_voxel", "convergence", "residuum"]))
        cf2 = plotlib.plotter_plot(rng, lay, "T")
        for k in ("title", "legend", "color_lim", "filter_lim", "clamp_lim"):
            if k in cf2["data_plot"]:
                cf2["data_plot"][k] = None
        cf2["data_window"].update({"image_size": None, "window_size": None, "notebook_size": None})
        plotlib.take()
        try:
            ctx.call(pypeec.run_viewer_data, vox, {"p": numpyfy(cfg, rng)}, plot_mode="debug")
            ctx.call(pypeec.run_plotter_data, s1, {"p": numpyfy(cf2, rng)}, plot_mode="debug")
        finally:
            plotlib.release(plotlib.take())
        ctx.count("accepted")

    # ---------------------------------------------------------------- limits of the formats
    def limits(rng, i):
        def accept(fn, args, what, desc):
            ctx.evaluations += 1
            ctx.case(desc, True)
            ctx.count("limits")
            ctx.call(fn, *args)
        mode = ("mesher", "problem", "tolerance", "tolerance", "viewer", "plotter", "plotter", "plotter")[i % 8]
        if mode == "mesher":
            kind, g = bases(rng, ctx.scratch, i//8)
            # the values that change the content of the domains
            no = {"mesh_type", "n", "size", "domain_index", "domain_color", "shape_type", "diameter", "width", "scale", "coord", "coord_shell", "coord_holes", "filename", "shape_operation",
                  "domain_resolve", "domain_keep", "domain_group", "connected", "resolve_rules", "resolve_random"}
            g["data_conflict"]["resolve_random"] = True
            bare = copy.deepcopy(g)
            bare["data_conflict"]["conflict_rules"] = []
            bare["data_integrity"] = {"domain_connected": {}, "domain_adjacent": {}}
            for base in (bare, g):
                for path, what, y in spec.valid(spec.GEOMETRY, base, rng):
                    if no & set(path) or (path[-1] == "filename_list" or path[-2:-1] == ("filename_list",)) and what == "one character":
                        continue
                    if (base is g) == (path[0] == "data_voxelize") or path[-1] == "layer_stack" and kind == "shape":
                        continue
                    accept(pypeec.run_mesher_data, (y,), what, {"kind": kind, "path": list(map(str, path)), "what": what, "geometry": y})
            dom = {"voxel": "domain_index", "png": "domain_color", "shape": "geometry_shape", "stl": "domain_stl"}[kind]
            for t in ("dom_a", "dom_b"):
                y = setp(bare, ("data_voxelize", dom), {"a": bare["data_voxelize"][dom][t]})
                accept(pypeec.run_mesher_data, (y,), "one domain", {"kind": kind, "what": "one domain with one letter", "geometry": y})
                # one entry per domain
                first = bare["data_voxelize"][dom][t][:1]
                if not (kind == "shape" and first[0]["shape_type"] == "pad"):
                    y = setp(bare, ("data_voxelize", dom, t), first)
                    accept(pypeec.run_mesher_data, (y,), "one entry", {"kind": kind, "what": "one entry of a domain", "geometry": y})
            y = setp(bare, ("data_conflict",), {"resolve_rules": True, "resolve_random": True, "conflict_rules": [{"domain_resolve": ["dom_a"], "domain_keep": ["dom_b"]}]})
            accept(pypeec.run_mesher_data, (y,), "one rule", {"kind": kind, "what": "one rule", "geometry": y})
            for w in ("domain_connected", "domain_adjacent"):
                y = setp(bare, ("data_integrity", w), {"c": {"connected": True, "domain_group": [["dom_a", "dom_b"]]}})
                accept(pypeec.run_mesher_data, (y,), "one group", {"kind": kind, "what": "one group in %s" % w, "geometry": y})
            ctx.case({"kind": kind, "geometry": g}, True)
            return
        P = gen.random_problem(rng, nmax=(4, 3, 3))
        pts = lib.outside_points(rng, P, 2)
        vox = lib.mesh(ctx, P, pts)
        prob = gen.data_problem(P)
        if mode == "problem":
            ctx.case({"problem": gen.describe(P)}, True)
            for path, what, y in spec.valid(spec.PROBLEM, prob, rng):
                if path[-1] == "freq" or path[-1] == "init":
                    if what != "one character":
                        accept(pypeec.run_solver_data, (vox, y, FAST), what, {"path": list(map(str, path)), "what": what, "problem": gen.describe(P)})
            # names of one letter
            short = copy.deepcopy(prob)
            par = short["sweep_solver"].pop("sim")
            for sec, val in (("material_def", "material_val"), ("source_def", "source_val")):
                names = {t: chr(97+q) for q, t in enumerate(short[sec])}
                short[sec] = {names[t]: v for t, v in short[sec].items()}
                par["param"][val] = {names[t]: v for t, v in par["param"][val].items()}
            short["sweep_solver"] = {"s": par, "t": {**copy.deepcopy(par), "init": "s"}}
            accept(pypeec.run_solver_data, (vox, short, FAST), "names of one letter", {"problem": short})
            return
        if mode == "tolerance":
            ctx.case({"problem": gen.describe(P)}, True)
            tol = gen.merge(FAST, {"solver_options": {"coupling": ["direct", "segregated"][(i//4) % 2]}, "mult_type": str(rng.choice(["fft", "direct"]))})
            for path, what, y in spec.valid(spec.tolerance(tol), tol, rng):
                if what.startswith("option") and what.split()[1] in ("MKL", "FFTW", "CuPy", "PARDISO", "PyAMG"):
                    continue
                if path[-1] in ("n_inner", "n_outer", "t_accuracy"):
                    # the smallest useful value
                    y = setp(tol, path, 1)
                elif path[-1] == "n_iter_max":
                    y = setp(tol, path, 2)
                accept(pypeec.run_solver_data, (vox, prob, y), what, {"path": list(map(str, path)), "what": what, "problem": gen.describe(P), "tolerance": y})
            return
        viewer = mode == "viewer"
        data = vox if viewer else ctx.call(pypeec.run_solver_data, vox, prob, FAST)
        layouts = spec.LAYOUT_VIEWER if viewer else spec.LAYOUT_PLOTTER
        layout = layouts[(i//8 if viewer else 3*(i//8)+i % 8-5) % len(layouts)]
        if layout == "phasor_point":
            # there is no scalar variable for the points
            layout = "norm_voxel"
        cfg = {"p": (plotlib.viewer_plot if viewer else plotlib.plotter_plot)(rng, layout, "T")}
        fn = pypeec.run_viewer_data if viewer else pypeec.run_plotter_data

        def go(c):
            plotlib.take()
            try:
                fn(data, c, plot_mode="debug")
            finally:
                plotlib.release(plotlib.take())
        for path, what, y in spec.valid(spec.VIEWER if viewer else spec.PLOTTER, cfg, rng):
            if path and path[-1] in ("framework", "layout", "var", "colormap", "style", "legend", "scale"):
                continue
            accept(go, (y,), what, {"layout": layout, "path": list(map(str, path)), "what": what, "cfg": y})

    ctx.ploop("mesher", ctx.n(32, 320), mesher)
    ctx.ploop("solver", ctx.n(40, 400), solver)
    ctx.ploop("plots", ctx.n(48, 320), plots)
    ctx.ploop("files", ctx.n(24, 240), files)
    ctx.ploop("accepted", ctx.n(40, 400), accepted)
    ctx.ploop("limits", ctx.n(32, 320), limits)
