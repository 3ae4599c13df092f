"""C30: Gerber conversion with stand-in tools."""
import copy
import json
import os
import re
import stat
import numpy as np
import PIL.Image
from pypeec.utils import gerber
from checks.c29 import tree

RULE = ("random stacks (1-4 images, 0-4 layers each), colours, voxel sizes, margins, oversampling, folder and file names; the stand-in renderer and image tool (found first in PATH) log their arguments and the project file and produce real PNG files; "
        "tool failures, missing tools and bad names are injected; the log, the images and the folders before and after are compared with the definition; non-trivial: at least two images")
ASSUMPTIONS = ["gerbv and mogrify are not installed: stand-ins that implement the documented options are used", "what the real gerbv draws is not observed, only the project file it is given",
               "the border argument of the renderer is only compared to 1 percent"]

GERBV = '''#!%(py)s -S
import sys, json, os, struct, zlib
a = sys.argv[1:]
log = {"tool": "gerbv", "argv": a, "cwd": os.getcwd()}
opt = {}
i = 0
bad = False
pos = []
LONG = {"--project": "-p", "--output": "-o", "--export": "-x", "--border": "--border", "-B": "--border", "--dpi": "--dpi", "-D": "--dpi"}
while i < len(a):
    k = a[i]
    if k.startswith("--") and "=" in k:
        k, v = k.split("=", 1); i += 1
    elif k.startswith("-") and i+1 < len(a):
        v = a[i+1]; i += 2
    else:
        pos.append(k); i += 1; continue
    opt[LONG.get(k, k)] = v
log["opt"], log["pos"] = opt, pos
try:
    log["project"] = open(opt["-p"]).read()
except Exception as ex:
    log["project"] = None
cfg = json.load(open(%(cfg)r))
n = sum(1 for x in open(%(log)r)) if os.path.exists(%(log)r) else 0
log["fail"] = fail = cfg.get("fail") == n
with open(%(log)r, "a") as f:
    f.write(json.dumps(log)+"\\n")
if fail and cfg["write"] == "none":
    sys.exit(cfg["code"])
dpi = float(opt["--dpi"])
(sx, sy) = cfg["size"]
b = int(cfg["border"])
w, h = max(1, int(round(sx/25.4e-3*dpi))), max(1, int(round(sy/25.4e-3*dpi)))
raw = b""
# pixels: white border, then a marker pattern unique for the run
c = bytes([10+n, 77, 200])
for y in range(h+2*b):
    row = b""
    if b <= y < b+h:
        row = b"\\xff\\xff\\xff"*b+c*w+b"\\xff\\xff\\xff"*b
    else:
        row = b"\\xff\\xff\\xff"*(w+2*b)
    raw += b"\\0"+row
if fail:
    raw = raw[:len(raw)//2]
def chunk(t, d):
    return struct.pack(">I", len(d))+t+d+struct.pack(">I", zlib.crc32(t+d))
with open(opt["-o"], "wb") as f:
    f.write(b"\\x89PNG\\r\\n\\x1a\\n"+chunk(b"IHDR", struct.pack(">IIBBBBB", w+2*b, h+2*b, 8, 2, 0, 0, 0))+chunk(b"IDAT", zlib.compress(raw))+chunk(b"IEND", b""))
sys.exit(cfg["code"] if fail else 0)
'''
MOGRIFY = '''#!%(py)s
import sys, json, os
a = sys.argv[1:]
cfg = json.load(open(%(cfg)r))
n = sum(1 for x in open(%(log)r)) if os.path.exists(%(log)r) else 0
fail = cfg.get("fail") == n
with open(%(log)r, "a") as f:
    f.write(json.dumps({"tool": "mogrify", "argv": a, "cwd": os.getcwd(), "fail": fail})+"\\n")
if fail:
    sys.exit(cfg["code"])
import PIL.Image, PIL.ImageChops
ops, files = [], []
i = 0
while i < len(a):
    if a[i] in ("-trim", "+repage"):
        ops.append((a[i], None)); i += 1
    elif a[i] in ("-sample", "-resize", "-scale", "-crop", "-geometry"):
        ops.append((a[i], a[i+1])); i += 2
    elif a[i].startswith("-"):
        sys.exit(1)
    else:
        files.append(a[i]); i += 1
if not files:
    sys.exit(1)
for f in files:
    im = PIL.Image.open(f); im.load()
    for (o, v) in ops:
        if o == "-trim":
            bg = PIL.Image.new(im.mode, im.size, im.getpixel((0, 0)))
            box = PIL.ImageChops.difference(im, bg).getbbox()
            if box:
                im = im.crop(box)
        elif o in ("-sample", "-scale", "-resize"):
            assert v.endswith("%%")
            k = float(v[:-1])/100
            im = im.resize((max(1, int(im.size[0]*k+0.5)), max(1, int(im.size[1]*k+0.5))), PIL.Image.NEAREST)
    im.save(f, "PNG")
'''
NAMES = ["front", "back", "terminal", "via", "a b", "x.y", "L-1", "été"]
COLORS = ["none", "copper", "sink", "src", "c1", "c2", "c10", "c11", "red", "Red"]
LAYERS = ["top", "bot", "drill", "pads", "z9", "z10", "in1", "in2", "in3", "paste"]


def parse(txt):
    """Layers of a project file: {number: (file, colour, visible, alpha)}."""
    out, dup = {}, False
    heads = list(re.finditer(r"\(define-layer!\s+(-?\d+)\s+\(cons\s+'filename\s+\"([^\"]*)\"\)", txt))
    for k, m in enumerate(heads):
        body = txt[m.end():heads[k+1].start() if k+1 < len(heads) else len(txt)]
        col = re.search(r"'color\s+#\(\s*(\S+)\s+(\S+)\s+(\S+?)\s*\)", body)
        alp = re.search(r"'alpha\s+#\(\s*(\S+?)\s*\)", body)
        num = int(m.group(1))
        dup |= num in out
        out[num] = (m.group(2), tuple(float(x) for x in col.groups()) if col else None, bool(re.search(r"'visible\s+#t", body)), float(alp.group(1)) if alp else None)
    return out, dup


def run(ctx):
    path0 = os.environ["PATH"]

    def setup(rng, i, stage):
        root = os.path.join(ctx.scratch, "%s%d" % (stage, i))
        tools = os.path.join(root, "tools")
        os.makedirs(tools)
        cfg, log = os.path.join(root, "cfg.json"), os.path.join(root, "log.txt")
        for name, txt in (("gerbv", GERBV), ("mogrify", MOGRIFY)):
            p = os.path.join(tools, name)
            with open(p, "w") as f:
                f.write(txt % {"py": "/opt/venv/bin/python", "cfg": cfg, "log": log})
            os.chmod(p, 0o755)
        fg = os.path.join(root, str(rng.choice(["gerber", "in put", "g/h"])))
        fp = fg if rng.random() < 0.2 else os.path.join(root, str(rng.choice(["png", "o ut", "p$x", "q;r&s"])))
        os.makedirs(fg, exist_ok=True)
        os.makedirs(fp, exist_ok=True)
        cols = [str(x) for x in rng.permutation(COLORS)[:int(rng.integers(1, len(COLORS)+1))]]
        lays = [str(x) for x in rng.permutation(LAYERS)[:int(rng.integers(1, len(LAYERS)+1))]]
        col = lambda: tuple(int(x) for x in rng.integers(0, 256, 3))
        data_gerber = {"gerber_edge": str(rng.choice(["edge.gbr", "e d.gbr"])), "color_edge": col(), "color_background": col(),
                       "color_def": {c: col() for c in cols}, "gerber_def": {x: "f %s.gbr" % x if rng.random() < 0.3 else "%s.gbr" % x for x in lays}}
        for f in [data_gerber["gerber_edge"]]+list(data_gerber["gerber_def"].values()):
            with open(os.path.join(fg, f), "w") as fid:
                fid.write("gerber %s" % f)
        with open(os.path.join(fp, "other.png"), "w") as fid:
            fid.write("bystander")
        over = float(rng.choice([1.0, 1.0, 2.0, 4.0, 2.5, 0.5]))
        nx, ny = (int(x) for x in rng.integers(8, 40, 2))
        voxel = float(10**rng.uniform(-5.3, -3.5))
        rel = rng.random() < 0.5
        data_export = {"margin": float(rng.choice([0.0, 0.1, 0.25, 1.0])), "voxel": voxel, "oversampling": over,
                       "folder_gerber": os.path.relpath(fg) if rel else fg, "folder_png": os.path.relpath(fp) if rel else fp}
        tags = [str(x) for x in rng.permutation(NAMES)[:int(rng.integers(1, 5))]]
        stack = {t: [{"gerber": str(rng.choice(lays)), "color": str(rng.choice(cols))} for _ in range(int(rng.integers(0, 5 if rng.random() < 0.8 else 30)))] for t in tags}
        setup = {"size": [nx*voxel, ny*voxel], "border": int(rng.integers(0, 12)), "fail": None, "code": int(rng.choice([1, 2, 127])), "write": str(rng.choice(["none", "half"]))}
        for t in tags:
            if rng.random() < 0.3:
                with open(os.path.join(fp, t+".png"), "w") as fid:
                    fid.write("stale")
        return dict(root=root, cfg=cfg, log=log, tools=tools, fg=fg, fp=fp, gerber=data_gerber, export=data_export, stack=stack, setup=setup, nx=nx, ny=ny)

    def execute(D, path=None):
        with open(D["cfg"], "w") as f:
            json.dump(D["setup"], f)
        if os.path.exists(D["log"]):
            os.remove(D["log"])
        os.environ["PATH"] = path or (D["tools"]+os.pathsep+path0)
        args = (D["export"], D["gerber"], D["stack"])
        keep = copy.deepcopy(args)
        try:
            gerber.get_convert(*args)
            err = None
        except Exception as ex:
            err = ex
        finally:
            os.environ["PATH"] = path0
        ctx.expect(args == keep, "the arguments are not modified")
        log = []
        if os.path.exists(D["log"]):
            with open(D["log"]) as f:
                log = [json.loads(x) for x in f]
        ctx.count("tool_calls", len(log))
        return err, log

    def desc(D):
        return {"export": D["export"], "gerber": D["gerber"], "stack": D["stack"], "tool": D["setup"]}

    def good(rng, i):
        D = setup(rng, i, "ok")
        ctx.case(desc(D), nontrivial=len(D["stack"]) > 1)
        before, bg = tree(D["fp"]), tree(D["fg"])
        err, log = execute(D)
        ctx.expect(err is None, "a valid conversion succeeds: %r" % err, abort=True)
        judge(D, log, before, bg)

    def judge(D, log, before, bg):
        g, e = D["gerber"], D["export"]
        runs = [x for x in log if x["tool"] == "gerbv"]
        ctx.expect(len(runs) == len(D["stack"]), "the renderer runs once per image", got=len(runs), want=len(D["stack"]), abort=True)
        outs = {}
        for x in runs:
            outs.setdefault(os.path.normpath(os.path.join(x["cwd"], x["opt"].get("-o", ""))), x)
        dpi = 25.4e-3*e["oversampling"]/e["voxel"]
        for t, layers in D["stack"].items():
            x = outs.get(os.path.join(D["fp"], t+".png"))
            ctx.expect(x is not None, "the renderer writes the image of the tag", tag=t, got=sorted(outs), abort=True)
            ctx.expect(x["opt"].get("-x") == "png", "the export format is PNG", got=x["opt"])
            ctx.expect(abs(float(x["opt"].get("--dpi", 0))-dpi) <= 0.51, "the resolution follows the voxel size and oversampling", got=x["opt"].get("--dpi"), want=dpi)
            ctx.expect(abs(float(x["opt"].get("--border", -9))-100*e["margin"]) < 1.01, "the border follows the margin", got=x["opt"].get("--border"), want=100*e["margin"])
            ctx.expect(not x["pos"], "no stray arguments", got=x["pos"])
            if not ctx.expect(x["project"] is not None, "the project file exists when the renderer runs", tag=t):
                continue
            lay, dup = parse(x["project"])
            ctx.expect(not dup, "layer numbers are unique")
            want = {k+1: (os.path.join(D["fg"], g["gerber_def"][s["gerber"]]), tuple(257.0*c for c in g["color_def"][s["color"]])) for k, s in enumerate(layers)}
            want[0] = (os.path.join(D["fg"], g["gerber_edge"]), tuple(257.0*c for c in g["color_edge"]))
            got = {k: (os.path.normpath(v[0]), v[1]) for k, v in lay.items() if k >= 0}
            # numbers may differ, the order of the layers must not
            ctx.expect([got[k] for k in sorted(got)] == [want[k] for k in sorted(want)], "the project lists the layers with their files and colours in order", tag=t, got=got, want=want)
            neg = [v for k, v in lay.items() if k < 0]
            ctx.expect(len(neg) == 1 and neg[0][1] == tuple(257.0*c for c in g["color_background"]), "the background colour is the defined one", got=neg)
            ctx.expect(all(v[2] for k, v in lay.items() if k >= 0) and all(v[3] == 257*255 for v in lay.values()), "the layers are visible and opaque", got=lay)
        # files
        after = tree(D["fp"])
        ctx.expect(tree(D["fg"]) == bg or D["fg"] == D["fp"], "the gerber folder is untouched")
        want = dict(before)
        new = {k: v for k, v in after.items() if want.get(k) != v}
        ctx.expect(set(after) == set(before) | {t+".png" for t in D["stack"]}, "exactly the images are created and the temporary files are removed", got=sorted(after), before=sorted(before), abort=True)
        ctx.expect(set(new) == {t+".png" for t in D["stack"]}, "other files are untouched and each image is new", got=sorted(new))
        seen = {}
        for t in D["stack"]:
            with PIL.Image.open(os.path.join(D["fp"], t+".png")) as im:
                im.load()
                k = im.getpixel((im.size[0]//2, im.size[1]//2))[:3]
                tol = 1.51+max(D["nx"], D["ny"])*0.51/dpi+1.0/max(e["oversampling"], 1e-9)
                ctx.expect(abs(im.size[0]-D["nx"]) <= tol and abs(im.size[1]-D["ny"]) <= tol, "one pixel of the image is one voxel, borders are cut", got=im.size, want=(D["nx"], D["ny"]))
                ctx.count("images")
            idx = log.index(outs[os.path.join(D["fp"], t+".png")])
            ctx.expect(tuple(k) == (10+idx, 77, 200), "the image shows the render of its own stack", got=k, want=idx)

    ctx.ploop("convert", ctx.n(48, 400), good)

    def faults(rng, i):
        D = setup(rng, i, "bad")
        err, log = execute(D)
        ctx.expect(err is None, "a valid conversion succeeds: %r" % err, abort=True)
        k = int(rng.integers(4))
        for f in os.listdir(D["fp"]):
            if f != "other.png" and not f.endswith(".gbr") and rng.random() < 0.5:
                os.remove(os.path.join(D["fp"], f))
        before, bg = tree(D["fp"]), tree(D["fg"])
        path = None
        if k == 0:
            D["setup"]["fail"] = int(rng.integers(len(log)))
            what = "tool %s (call %d) exits with code %d" % (log[D["setup"]["fail"]]["tool"], D["setup"]["fail"], D["setup"]["code"])
        elif k == 1:
            name = str(rng.choice(["gerbv", "mogrify"]))
            what = "%s is missing" % name
            os.remove(os.path.join(D["tools"], name))
            path = D["tools"]
            os.symlink("/bin/sh", os.path.join(D["tools"], "sh"))
        elif k == 2:
            t = str(rng.choice(list(D["stack"])))
            f = str(rng.choice(["gerber", "color"]))
            lay = D["stack"][t]
            lay.append({"gerber": next(iter(D["gerber"]["gerber_def"])), "color": next(iter(D["gerber"]["color_def"]))})
            lay[int(rng.integers(len(lay)))][f] = "nothing"
            what = "unknown %s name in stack %s" % (f, t)
        else:
            D["export"]["folder_png"] = os.path.join(D["fp"], "missing")
            what = "missing output folder"
        ctx.case({"fault": what, **desc(D)})
        err, log = execute(D, path)
        ctx.expect(err is not None, "a failing conversion is reported: %s" % what, abort=True)
        ctx.count("fault:%d" % k)
        after = tree(D["fp"])
        ctx.expect(tree(D["fg"]) == bg or D["fg"] == D["fp"], "the gerber folder is untouched")
        debris = [x for x in after if x not in before and x not in {t+".png" for t in D["stack"]}]
        ctx.expect(not debris, "no temporary file is left after a failure: %s" % what, got=debris)
        ctx.expect(all(after.get(x) == v for x, v in before.items() if x not in {t+".png" for t in D["stack"]}), "other files are untouched after a failure")
        # the next conversion is not affected
        if k == 0:
            D["setup"]["fail"] = None
            before, bg = tree(D["fp"]), tree(D["fg"])
            err, log = execute(D)
            ctx.expect(err is None, "the conversion works again after a failure: %r" % err, abort=True)

    ctx.ploop("faults", ctx.n(48, 400), faults)
