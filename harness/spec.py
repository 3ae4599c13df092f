"""Hand-written description of the documented input formats, used to derive invalid input from valid input.

A node is (kind, options); `invalid` enumerates single violations of a valid value.
"""
import copy


def S(**f):
    return ("struct", f)


def M(sub, least=0):
    return ("map", sub, least)


def L(sub, least=0):
    return ("list", sub, least)


def V(sub, k, null=False):
    return ("vec", sub, k, null)


def I(lo=None, null=False):
    return ("int", lo, null)


def F(lo=None, null=False, strict=False):
    return ("num", lo, null, strict)


def E(*vals, null=False):
    return ("enum", vals, null)


def T(null=False, empty=False):
    return ("text", null, empty)


B = ("bool",)
ANY = ("any",)


def invalid(spec, val, rng, path=()):
    """Yield (path, what, new value) for single violations of val."""
    kind = spec[0]
    bad = []
    if kind == "any":
        return
    if kind == "struct":
        bad += [("no dict", []), ("no dict", "text"), ("null", None)]
        for k in spec[1]:
            if k in val:
                x = dict(val)
                del x[k]
                bad.append(("missing %s" % k, x))
                sub = spec[1][k]
                if callable(sub):
                    sub = sub(val)
                for p, w, y in invalid(sub, val[k], rng, path+(k,)):
                    z = dict(val)
                    z[k] = y
                    yield p, w, z
    elif kind == "map":
        bad += [("no dict", ["a"]), ("no dict", 3), ("null", None)]
        if spec[2]:
            bad.append(("empty", {}))
        keys = list(val)
        if keys:
            for k in [keys[int(rng.integers(len(keys)))]]:
                sub = spec[1](k, val[k]) if callable(spec[1]) else spec[1]
                for p, w, y in invalid(sub, val[k], rng, path+(k,)):
                    z = dict(val)
                    z[k] = y
                    yield p, w, z
    elif kind in ("list", "vec"):
        bad += [("no list", {}), ("no list", "text"), ("no list", 4)]
        if kind == "list":
            if spec[2]:
                bad.append(("empty", []))
            bad.append(("null", None))
        elif val is not None:
            bad += [("too long", list(val)+[val[-1]]), ("too short", list(val)[:-1]), ("empty", [])]
            if not spec[3]:
                bad.append(("null", None))
        if val is not None and len(val):
            j = int(rng.integers(len(val)))
            sub = spec[1](val[j]) if callable(spec[1]) else spec[1]
            for p, w, y in invalid(sub, val[j], rng, path+(j,)):
                z = list(val)
                z[j] = y
                yield p, w, z
    elif kind == "int":
        bad += [("no integer", 2.5), ("no integer", "3"), ("no integer", [1])]
        if not spec[2]:
            bad.append(("null", None))
        if spec[1] is not None:
            bad += [("below minimum", spec[1]-1), ("below minimum", spec[1]-7)]
    elif kind == "num":
        bad += [("no number", "1.0" if len(spec) < 5 else "one"), ("no number", [1.0]), ("no number", {})]
        if not spec[2]:
            bad.append(("null", None))
        if spec[1] is not None:
            bad += [("below minimum", spec[1]-1.5), ("below minimum", spec[1]-1e-6)]
            if spec[3]:
                bad.append(("at excluded minimum", float(spec[1])))
    elif kind == "enum":
        bad += [("unknown option", "unknown"), ("unknown option", ""), ("no text", 5), ("no text", ["x"])]
        if val is not None:
            bad += [("unknown option", val+"_"), ("unknown option", val[:-1])]
            if val.swapcase() not in spec[1]:
                bad.append(("unknown option", val.swapcase()))
        if not spec[2]:
            bad.append(("null", None))
        bad = [(w, x) for w, x in bad if not (isinstance(x, str) and x in spec[1])]
    elif kind == "text":
        bad += [("no text", 7), ("no text", ["a"]), ("no text", {})]
        if not spec[2]:
            bad.append(("empty text", ""))
        if not spec[1]:
            bad.append(("null", None))
    elif kind == "bool":
        bad += [("no boolean", "true"), ("no boolean", 2.5), ("no boolean", []), ("null", None)]
    for w, x in bad:
        yield path, w, copy.deepcopy(x)


def valid(spec, val, rng, path=()):
    """Yield (path, what, new value) for single changes of val to the limits of the format (minima, null, shortest lists, options)."""
    kind = spec[0]
    out = []
    if kind == "struct":
        for k in spec[1]:
            if k in val:
                sub = spec[1][k]
                if callable(sub):
                    sub = sub(val)
                for p, w, y in valid(sub, val[k], rng, path+(k,)):
                    yield p, w, {**val, k: y}
    elif kind == "map":
        if not spec[2] and val:
            out.append(("empty", {}))
        if len(val) > 1:
            k = list(val)[int(rng.integers(len(val)))]
            out.append(("one entry", {k: val[k]}))
        for k in val:
            sub = spec[1](k, val[k]) if callable(spec[1]) else spec[1]
            for p, w, y in valid(sub, val[k], rng, path+(k,)):
                yield p, w, {**val, k: y}
    elif kind in ("list", "vec"):
        if kind == "vec" and spec[3]:
            out.append(("null", None))
        if kind == "list" and val and not spec[2]:
            out.append(("empty", []))
        if kind == "list" and len(val) > 1:
            out.append(("one entry", [val[int(rng.integers(len(val)))]]))
        for j in range(len(val or [])):
            sub = spec[1](val[j]) if callable(spec[1]) else spec[1]
            for p, w, y in valid(sub, val[j], rng, path+(j,)):
                yield p, w, [y if q == j else x for q, x in enumerate(val)]
    elif kind == "int":
        out += [("minimum", spec[1])] if spec[1] is not None else []
        out += [("null", None)] if spec[2] else []
    elif kind == "num":
        out += [("minimum", float(spec[1]))] if spec[1] is not None and not spec[3] else []
        out += [("null", None)] if spec[2] else []
    elif kind == "enum":
        out += [("option %s" % x, x) for x in spec[1]]
        out += [("null", None)] if spec[2] else []
    elif kind == "text":
        out += [("one character", "k")]
        out += [("null", None)] if spec[1] else []
        out += [("empty text", "")] if spec[2] else []
    elif kind == "bool":
        out += [("true", True), ("false", False)]
    for w, x in out:
        if not (type(x) is type(val) and x == val):
            yield path, w, copy.deepcopy(x)


# ---------------------------------------------------------------------- formats
name = T()
_pos3 = V(F(0, strict=True), 3)
_vec3 = V(F(), 3)
_pt2 = V(F(), 2)
_group = M(S(domain_group=L(L(name, 1), 1), connected=B))
_layers = lambda key: L(S(**{"n_layer": I(1), **key}), 1)

VOX_VOXEL = S(param=S(n=V(I(1), 3), d=_pos3, c=_vec3), domain_index=M(L(I(0)), 1))
VOX_PNG = S(param=S(d=_pos3, c=_vec3, size=V(I(1), 2)), domain_color=M(L(V(I(0), 4), 1), 1), layer_stack=_layers({"filename_list": L(T(), 1)}))
VOX_STL = S(param=S(d=_pos3, xyz_min=V(F(), 3, null=True), xyz_max=V(F(), 3, null=True)), domain_stl=M(L(S(scale=F(0), offset=_vec3, filename=T()), 1), 1))


def _shape_data(val):
    return {"pad": S(diameter=F(0), coord=L(_pt2, 1)), "trace": S(width=F(0), coord=L(_pt2, 1)),
            "polygon": S(buffer=F(0, null=True), coord_shell=L(_pt2, 1), coord_holes=L(L(_pt2, 1)))}[val["shape_type"]]


VOX_SHAPE = S(param=S(dx=F(0, strict=True), dy=F(0, strict=True), dz=F(0, strict=True), cz=F(null=True), simplify=F(0, null=True), construct=F(0, null=True),
                      xy_min=V(F(), 2, null=True), xy_max=V(F(), 2, null=True)),
              layer_stack=_layers({"tag_layer": T()}),
              geometry_shape=M(L(S(shape_layer=L(T(), 1), shape_operation=E("add", "sub"), shape_type=E("pad", "trace", "polygon"), shape_data=_shape_data), 1), 1))
VOX = {"voxel": VOX_VOXEL, "png": VOX_PNG, "stl": VOX_STL, "shape": VOX_SHAPE}

GEOMETRY = S(
    mesh_type=E("voxel", "png", "stl", "shape"),
    data_voxelize=lambda v: VOX[v["mesh_type"]],
    data_point=S(check_cloud=B, full_cloud=B, pts_cloud=L(_vec3)),
    data_resampling=S(use_reduce=B, use_resample=B, resampling_factor=V(I(1), 3)),
    data_conflict=S(resolve_rules=B, resolve_random=B, conflict_rules=L(S(domain_resolve=L(name, 1), domain_keep=L(name, 1)))),
    data_integrity=S(domain_connected=_group, domain_adjacent=_group),
)

_tol = dict(rel_tol=F(0), abs_tol=F(0))
_iter = S(solver=E("gmres", "gcrot"), n_inner=I(0), n_outer=I(0), **_tol)


def tolerance(val):
    seg = dict(relax_electric=F(0), relax_magnetic=F(0), n_min=I(0), n_max=I(0), **_tol)
    if val["solver_options"]["coupling"] == "segregated":
        # only needed for this coupling
        seg.update(iter_electric_options=_iter, iter_magnetic_options=_iter)
    return S(
        parallel_sweep=S(n_jobs=I(), n_threads=I(null=True)), integral_simplify=F(0), biot_savart=E("face", "voxel"), mult_type=E("fft", "direct"),
        fft_options=S(matrix_split=B, library=E("NumPy", "SciPy", "MKL", "FFTW", "CuPy"), scipy_worker=I(), fftw_thread=I(), fftw_timeout=F(0, null=True), fftw_byte_align=I(0, null=True)),
        factorization_options=S(library=E("SuperLU", "PARDISO", "PyAMG"), pyamg_options=S(tol=F(0), solver=E("adapt", "root"), krylov=E("gmres", "fgmres", null=True)),
                                pardiso_options=S(thread_pardiso=I(null=True), thread_mkl=I(null=True))),
        solver_options=S(coupling=E("direct", "segregated"), tolerance_options=S(ignore_status=B, ignore_res=B, **_tol),
                         power_options=S(stop=B, n_min=I(0), n_cmp=I(0), **_tol), direct_options=_iter, segregated_options=S(**seg)),
        condition_options=S(check=B, tolerance_electric=F(0), tolerance_magnetic=F(0), norm_options=S(t_accuracy=I(0), n_iter_max=I(0))),
    )



WINDOW = S(show_menu=B, image_size=V(I(0), 2, null=True), window_size=V(I(0), 2, null=True), notebook_size=V(I(0), 2, null=True))
OPT_PYVISTA = S(
    plot_clip=S(clip_plot=B, clip_invert=B, clip_axis=E("x", "y", "z"), clip_value=F()),
    plot_theme=S(text_color=T(), title_font=I(0), colorbar_font=I(0), colorbar_size=I(0), colorbar_plot=B, background_color=T(), axis_add=B, axis_size=I(0)),
    plot_view=S(grid_plot=B, grid_thickness=F(0), grid_color=T(), grid_opacity=F(0), geom_plot=B, geom_thickness=F(0), geom_color=T(), geom_opacity=F(0),
                point_plot=B, point_color=T(), point_size=F(0), point_opacity=F(0), camera_roll=F(0, null=True), camera_azimuth=F(0, null=True), camera_elevation=F(0, null=True)))
OPT_MPL = S(style=T(), legend=T(), font=I(0))
_lim = V(F(), 2, null=True)
_dom = S(title=T(null=True), colormap=T(), opacity=F(0))
_com = dict(title=T(null=True), legend=T(null=True), var=T(), log=B, color_lim=_lim, filter_lim=_lim, clamp_lim=_lim, scale=F())
DATA_PLOT = {
    "domain": _dom, "graph": _dom,
    "mesh": S(title=T(null=True), color_voxel=T(), color_reference=T(), opacity_voxel=F(0), opacity_reference=F(0)),
    "material": S(title=T(null=True), color_electric=T(), color_magnetic=T(), color_electromagnetic=T(), color_current_source=T(), color_voltage_source=T()),
    "convergence": S(color_active=T(), color_reactive=T(), marker=F(0), width=F(0)),
    "residuum": S(bar_color=T(), edge_color=T(), tol_bins=F(0), n_bins=I(0)),
    "norm": S(point_size=F(0), **_com), "phasor": S(phase=F(), point_size=F(0), **_com),
    "arrow": S(phase=F(), arrow_threshold=F(0), arrow_scale=F(0), **_com),
}
LAYOUT_VIEWER = ("domain", "graph", "mesh")
LAYOUT_PLOTTER = ("material", "norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "phasor_point", "arrow_point", "convergence", "residuum")


def _plot(layouts):
    return lambda k, v: S(framework=E("pyvista", "matplotlib"), layout=E(*layouts), title=T(), data_window=WINDOW,
                          data_options=OPT_MPL if v["framework"] == "matplotlib" else OPT_PYVISTA, data_plot=DATA_PLOT[v["layout"].split("_")[0]])


VIEWER = M(_plot(LAYOUT_VIEWER))
PLOTTER = M(_plot(LAYOUT_PLOTTER))

def _val(k, v):
    # the sizes of arrays are examined elsewhere; text that is a number is not judged
    return S(**{q: (ANY if isinstance(x, list) else F()+(True,)) for q, x in v.items()})


PROBLEM = S(
    material_def=M(S(domain_list=L(name, 1), material_type=E("electric", "magnetic", "electromagnetic"), orientation_type=E("isotropic", "anisotropic"), var_type=E("lumped", "distributed")), 1),
    source_def=M(S(domain_list=L(name, 1), source_type=E("current", "voltage"), var_type=E("lumped", "distributed")), 1),
    sweep_solver=M(S(init=T(null=True), param=S(freq=F(0), material_val=M(_val), source_val=M(_val))), 1),
)
