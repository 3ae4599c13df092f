"""Recording stand-ins for the rendering layer and generators of viewer/plotter configurations.

The stand-ins derive from the real classes: meshes, texts and figures are built for real, only the final
rendering to pixels (which needs a display) is replaced by a recorded event and a small placeholder image.
"""
import os
import weakref
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.figure
import pyvista as pv

EVENTS = []
REAL = pv.Plotter


class RecPlotter(REAL):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.vp_log = []
        self.vp_args = (a, k)
        EVENTS.append(("plotter", self))

    def add_mesh(self, mesh, *a, **k):
        if not getattr(self, "vp_inner", False):
            self.vp_log.append(("mesh", mesh.copy(deep=True) if hasattr(mesh, "copy") else mesh, dict(k), False))
        return super().add_mesh(mesh, *a, **k)

    def add_mesh_clip_plane(self, mesh, *a, **k):
        self.vp_log.append(("mesh", mesh.copy(deep=True), dict(k), True))
        # the interactive widget needs a window
        return None

    def add_text(self, text, *a, **k):
        if not getattr(self, "vp_inner", False):
            self.vp_log.append(("text", text, dict(k)))
        return super().add_text(text if text is not None else "", *a, **k)

    def screenshot(self, filename=None, *a, **k):
        EVENTS.append(("shot", self, str(filename)))
        if filename is not None:
            import PIL.Image
            PIL.Image.new("RGB", (4, 3), (10, 20, 30)).save(str(filename), format="PNG")
        return None

    def show(self, *a, **k):
        EVENTS.append(("show", self))
        return None

    def close(self, *a, **k):
        if not getattr(self, "vp_closed", False):
            EVENTS.append(("close", self))
        self.vp_closed = True
        try:
            super().close()
        except Exception:
            pass


def install():
    """Before the plotting modules of the code under test are imported."""
    if pv.Plotter is RecPlotter:
        return
    pv.Plotter = RecPlotter
    fig0, save0 = plt.figure, matplotlib.figure.Figure.savefig
    known = weakref.WeakSet()

    def figure(*a, **k):
        f = fig0(*a, **k)
        if f not in known:
            known.add(f)
            EVENTS.append(("figure", f))
        return f

    def savefig(self, fname, *a, **k):
        EVENTS.append(("savefig", self, str(fname)))
        return save0(self, fname, *a, **k)
    plt.figure = figure
    matplotlib.figure.Figure.savefig = savefig


def take():
    out = list(EVENTS)
    EVENTS.clear()
    return out


def release(events):
    for e in events:
        if e[0] == "plotter" and not getattr(e[1], "vp_closed", False):
            e[1].close()
        if e[0] == "figure":
            plt.close(e[1])


# ---------------------------------------------------------------------- configurations
COLORS = ["red", "blue", "green", "black", "gray", "darkorange", "gainsboro", "darkviolet", "forestgreen", "royalblue", "white"]


def window(rng):
    size = lambda: None if rng.random() < 0.15 else [int(x) for x in rng.integers(60, 300, 2)]
    return {"show_menu": bool(rng.integers(2)), "image_size": size(), "window_size": size(), "notebook_size": size()}


def opt_pyvista(rng, clip=0.2):
    col = lambda: str(rng.choice(COLORS))
    return {
        "plot_clip": {"clip_plot": bool(rng.random() < clip), "clip_invert": bool(rng.integers(2)), "clip_axis": str(rng.choice(list("xyz"))), "clip_value": float(rng.normal())},
        "plot_theme": {"text_color": col(), "title_font": int(rng.integers(5, 20)), "colorbar_font": int(rng.integers(5, 20)), "colorbar_size": int(rng.integers(2, 7)),
                       "colorbar_plot": bool(rng.integers(2)), "background_color": col(), "axis_add": bool(rng.integers(2)), "axis_size": int(rng.integers(1, 4))},
        "plot_view": {"grid_plot": bool(rng.integers(2)), "grid_thickness": float(rng.uniform(0.5, 3)), "grid_color": col(), "grid_opacity": float(rng.random()),
                      "geom_plot": bool(rng.integers(2)), "geom_thickness": float(rng.uniform(0.5, 3)), "geom_color": col(), "geom_opacity": float(rng.random()),
                      "point_plot": bool(rng.integers(2)), "point_color": col(), "point_size": float(rng.uniform(1, 10)), "point_opacity": float(rng.random()),
                      "camera_roll": None if rng.random() < 0.5 else float(rng.uniform(0, 90)), "camera_azimuth": None if rng.random() < 0.5 else float(rng.uniform(0, 90)),
                      "camera_elevation": None if rng.random() < 0.5 else float(rng.uniform(0, 60))},
    }


def opt_mpl(rng):
    return {"style": str(rng.choice(["default", "ggplot", "bmh"])), "legend": str(rng.choice(["best", "upper right", "lower left"])), "font": int(rng.integers(6, 14))}


def viewer_plot(rng, layout, title):
    col = lambda: str(rng.choice(COLORS))
    if layout == "mesh":
        dp = {"title": title, "color_voxel": col(), "color_reference": col(), "opacity_voxel": float(rng.random()), "opacity_reference": float(rng.random())}
    else:
        dp = {"title": title, "colormap": str(rng.choice(["Accent", "Set1", "viridis"])), "opacity": float(rng.random())}
    return {"framework": "pyvista", "layout": layout, "title": "W "+title, "data_window": window(rng), "data_options": opt_pyvista(rng), "data_plot": dp}


VOXEL_SCALAR = ("V_c", "P_c", "S_c", "V_m", "P_m", "Q_m")
VOXEL_VECTOR = ("J_c", "B_m")


def plotter_plot(rng, layout, title, lim=True):
    mpl = layout in ("convergence", "residuum")
    if layout == "material":
        cols = [str(x) for x in rng.permutation(COLORS)[:5]]
        dp = dict(zip(("color_electric", "color_magnetic", "color_electromagnetic", "color_current_source", "color_voltage_source"), cols), title=title)
    elif layout == "convergence":
        dp = {"color_active": "red", "color_reactive": "blue", "marker": float(rng.uniform(1, 9)), "width": float(rng.uniform(0.5, 3))}
    elif layout == "residuum":
        dp = {"n_bins": int(rng.integers(3, 20)), "tol_bins": float(rng.uniform(0.01, 0.2)), "bar_color": "blue", "edge_color": "black"}
    else:
        point = layout.endswith("point")
        if layout.startswith("norm"):
            var = "H_p" if point else str(rng.choice(VOXEL_SCALAR+VOXEL_VECTOR))
        elif layout.startswith("phasor"):
            var = str(rng.choice(VOXEL_SCALAR))
        else:
            var = "H_p" if point else str(rng.choice(VOXEL_VECTOR))
        dp = {"title": title, "legend": None if rng.random() < 0.2 else "L "+title, "var": var, "scale": float(rng.choice([1.0, 1e-6, 1e3, -2.0, 0.37])),
              "log": False, "color_lim": None if rng.random() < 0.7 else [0.0, 1.0], "filter_lim": None, "clamp_lim": None}
        if layout.startswith("arrow"):
            dp.update({"phase": float(rng.choice([0.0, np.pi/2, 0.7, -2.1])), "arrow_threshold": float(rng.choice([0.01, 0.3])), "arrow_scale": float(rng.uniform(0.3, 2))})
        else:
            dp["point_size"] = float(rng.uniform(1, 12))
        if layout.startswith("phasor"):
            dp["phase"] = float(rng.choice([0.0, np.pi/2, 0.7, -2.1, np.pi]))
    return {"framework": "matplotlib" if mpl else "pyvista", "layout": layout, "title": "W "+title, "data_window": window(rng),
            "data_options": opt_mpl(rng) if mpl else opt_pyvista(rng), "data_plot": dp}
