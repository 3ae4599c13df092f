"""Run one plotting call with real rendering (used inside a virtual display)."""
import os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import pyvista as pv
with open(sys.argv[1], "rb") as f:
    job = pickle.load(f)
# control: the display works
pl = pv.Plotter(off_screen=True, window_size=(80, 60))
pl.add_mesh(pv.Sphere())
pl.screenshot(job["control"])
pl.close()
print("READY", flush=True)
import pypeec
getattr(pypeec, job["fn"])(job["data"], job["cfg"], **job["kw"])
print("DONE", flush=True)
