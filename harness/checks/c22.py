"""C22: command line, file and data interfaces agree."""
import contextlib
import copy
import gzip
import io
import json
import os
import pickle
import shutil
import subprocess
import sys
import zipfile
import numpy as np
import yaml
import scisave
import plotlib
import pypeec
from pypeec.script import run_arguments
import gen, lib, reslib
from core import jsonable, REPO
from checks.c20 import bases, FAST
from checks.c29 import tree, viewer_case, plotter_case, pick

RULE = ("random geometries (all four meshers), problems, options and plot definitions are written as JSON, gzip JSON and YAML; mesh, solution and plots of the file functions and of the command line (in process and as a separate process, long and "
        "short names) are compared with those of the data functions and with the loaded output files; usage errors and failing runs are injected; non-trivial: every pipeline and every failing invocation")
ASSUMPTIONS = ["file formats are parsed with scisave, json, gzip, pickle and yaml", "timing fields and randomised condition estimates are not compared", "the bundled archives do not exist in the repository: the extraction commands run on a scratch copy of the package with stand-in archives",
               "rendering is replaced by a recording stand-in"]
IN_EXT = [".json", ".js", ".yaml", ".yml", ".json.gz", ".gzip"]
OUT_EXT = [".json", ".js", ".gz", ".gzip", ".pck", ".pkl", ".pickle"]


class Inline(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def put(path, x):
    x = jsonable(x)
    if path.endswith((".json", ".js")):
        with open(path, "w") as f:
            json.dump(x, f)
    elif path.endswith((".gz", ".gzip")):
        with gzip.open(path, "wt") as f:
            json.dump(x, f)
    else:
        with open(path, "w") as f:
            yaml.dump(x, f, Dumper=Inline, default_flow_style=None, sort_keys=False)
    return path


def load(path):
    """Independent of the loader used by the code for pickle; JSON arrays are decoded here."""
    if path.endswith((".pck", ".pkl", ".pickle")):
        with open(path, "rb") as f:
            return pickle.load(f)
    op = gzip.open if path.endswith((".gz", ".gzip")) else open

    def hook(d):
        if "__complex__" in d:
            return complex(d["real"], d["imag"])
        if "__numpy__" in d:
            if d["dtype"] == "complex":
                v = np.array(d["data"]["real"], float)+1j*np.array(d["data"]["imag"], float)
            else:
                v = np.array(d["data"], {"float": float, "int": int, "bool": bool}[d["dtype"]])
            return v.reshape(d["shape"])
        return d
    with op(path, "rt") as f:
        return json.load(f, object_hook=hook)


def cli(argv):
    out, err = (io.TextIOWrapper(io.BytesIO(), encoding="utf8", write_through=True) for _ in range(2))
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        rc = run_arguments(argv)
    return rc, out.buffer.getvalue().decode("utf8"), err.buffer.getvalue().decode("utf8")


def spawn(argv, cwd=None, repo=REPO):
    env = dict(os.environ)
    env["PYTHONPATH"] = repo
    p = subprocess.run([sys.executable, "-c", "import sys; import pypeec; sys.argv[0] = 'pypeec'; pypeec.run_script()"]+argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def run(ctx):
    plotlib.install()

    def fresh(stage, i):
        root = os.path.join(ctx.scratch, "%s%d" % (stage, i), str("a b") if i % 5 == 0 else "w")
        os.makedirs(root)
        return root

    def same(a, b, what, tol=1e-9):
        d = reslib.diff(a, b, tol)
        ctx.expect(d is None, what, difference=d)

    def calls(rng):
        return str(rng.choice(["file", "cli", "cli", "spawn"] if rng.random() < 0.15 else ["file", "cli", "cli"]))

    def invoke(how, fn, args, argv, kw=None):
        if how == "file":
            r = ctx.call(fn, *args, **(kw or {}))
            ctx.expect(r is None, "the file functions return nothing", got=repr(r)[:100])
        else:
            rc, out, err = (cli if how == "cli" else spawn)(argv)
            ctx.expect(rc == 0, "a valid command returns zero", got=rc, argv=argv, err=err[-600:], abort=True)
        ctx.count("run:"+how)

    def flip(rng, cmd, alias, opts):
        """Command line in a random form: long or short options, any order."""
        parts = []
        for (s, l, v) in opts:
            v = v if isinstance(v, list) else [v]
            f = s if rng.random() < 0.5 else l
            parts.append([f+"="+v[0]] if len(v) == 1 and f.startswith("--") and rng.random() < 0.3 else [f]+v)
        rng.shuffle(parts)
        return ([str(rng.choice(["-q", "--quiet"]))] if rng.random() < 0.5 else [])+[str(rng.choice([cmd, alias]))]+sum(parts, [])

    # ---------------------------------------------------------------- mesher
    def mesher(rng, i):
        root = fresh("m", i)
        kind, g = bases(rng, root, i)
        g["data_conflict"]["resolve_random"] = False
        if kind == "voxel" and rng.random() < 0.7:
            P = gen.random_problem(rng)
            g = gen.geometry(P["n"], P["d"], P["c"], P["dom"], lib.outside_points(rng, P, 2))
        ext_i, ext_o, how = str(rng.choice(IN_EXT)), str(rng.choice(OUT_EXT)), calls(rng)
        ctx.case({"kind": kind, "in": ext_i, "out": ext_o, "how": how, "geometry": g})
        f_in, f_out = put(os.path.join(root, "geo"+ext_i), g), os.path.join(root, "vox"+ext_o)
        if rng.random() < 0.4:
            with open(f_out, "wb") as f:
                f.write(b"old content "*1000)
        keep = open(f_in, "rb").read()
        before = set(tree(root))
        ref = ctx.call(pypeec.run_mesher_data, g)
        argv = flip(rng, "mesher", "me", [("-ge", "--geometry", f_in), ("-vo", "--voxel", f_out)])
        invoke(how, pypeec.run_mesher_file, (f_in, f_out), argv)
        ctx.expect(open(f_in, "rb").read() == keep, "the input file is untouched")
        ctx.expect(set(tree(root)) == before | {os.path.basename(f_out)}, "exactly the output file is written", got=sorted(set(tree(root))-before))
        same(ref, load(f_out), "mesh written by the %s interface" % how)
        same(ref, ctx.call(scisave.load_data, f_out), "mesh loaded from the file")

    ctx.ploop("mesher", ctx.n(64, 600), mesher)

    # ---------------------------------------------------------------- solver
    def solver(rng, i):
        root = fresh("s", i)
        P = gen.random_problem(rng)
        vox = lib.mesh(ctx, P, lib.outside_points(rng, P, 2))
        sw = None
        if rng.random() < 0.5:
            par2 = copy.deepcopy(P["param"])
            par2["freq"] = par2["freq"]*2
            sw = {"a": {"init": None, "param": P["param"]}, "b_2": {"init": None if rng.random() < 0.5 else "a", "param": par2}}
        prob = gen.data_problem(P, sw)
        tolr = gen.merge(FAST, {"parallel_sweep": {"n_jobs": 0}})
        ei, et, eo, how = str(rng.choice(IN_EXT)), str(rng.choice(IN_EXT)), str(rng.choice(OUT_EXT)), calls(rng)
        ev = str(rng.choice([".json", ".json.gz", ".pck", ".pickle"]))
        ctx.case({"in": [ev, ei, et], "out": eo, "how": how, "problem": gen.describe(P)})
        fv = os.path.join(root, "vox"+ev)
        scisave.write_data(fv, vox)
        fp, ft, fs = put(os.path.join(root, "problem"+ei), prob), put(os.path.join(root, "tol"+et), tolr), os.path.join(root, "sol"+eo)
        before = tree(root)
        ref = ctx.call(pypeec.run_solver_data, vox, prob, tolr)
        argv = flip(rng, "solver", "so", [("-vo", "--voxel", fv), ("-pr", "--problem", fp), ("-to", "--tolerance", ft), ("-so", "--solution", fs)])
        invoke(how, pypeec.run_solver_file, (fv, fp, ft, fs), argv)
        after = tree(root)
        ctx.expect({k: v for k, v in after.items() if k != "sol"+eo} == before, "only the output file is written", got=sorted(after))
        same(ref, load(fs), "solution written by the %s interface" % how)
        got = ctx.call(scisave.load_data, fs)
        same(ref, got, "solution loaded from the file")
        # a loaded solution is as good as the original for the plotter
        if i % 3 == 0:
            cfg = {"p": plotlib.plotter_plot(rng, str(rng.choice(["material", "convergence", "residuum", "norm_voxel"])), "T")}
            sig = []
            for s in (ref, got):
                plotlib.take()
                ctx.call(pypeec.run_plotter_data, s, copy.deepcopy(cfg), plot_mode="debug")
                evs = plotlib.take()
                sig.append(reslib.plot_signature(evs))
                plotlib.release(evs)
            same(sig[0], sig[1], "plots of the loaded solution")

    ctx.ploop("solver", ctx.n(64, 600), solver)

    # ---------------------------------------------------------------- plots
    def plots(rng, i):
        root = fresh("p", i)
        viewer = bool(i % 2)
        data, cfg, sweeps = (viewer_case if viewer else plotter_case)(rng, ctx)
        cfg = jsonable(cfg)
        arg_t, _ = pick(rng, list(cfg))
        arg_s, _ = (None, None) if viewer else pick(rng, sweeps)
        fd, fc = os.path.join(root, "data"+str(rng.choice([".json", ".gz", ".pck"]))), put(os.path.join(root, "plots"+str(rng.choice(IN_EXT))), cfg)
        scisave.write_data(fd, data)
        mode = str(rng.choice(["debug", "save"]))
        how = str(rng.choice(["file", "cli"]))
        ctx.case({"viewer": viewer, "tags": arg_t, "sweeps": arg_s, "mode": mode, "how": how, "layouts": {k: v["layout"] for k, v in cfg.items()}})
        res = {}
        for k in ("data", how):
            folder = os.path.join(root, "img_"+k)
            os.makedirs(folder)
            kw = {"tag_plot": arg_t, "plot_mode": mode, "folder": folder}
            if not viewer:
                kw["tag_sweep"] = arg_s
            plotlib.take()
            if k == "data":
                ctx.call(pypeec.run_viewer_data if viewer else pypeec.run_plotter_data, data, copy.deepcopy(cfg), **kw)
            else:
                opts = ([("-vo", "--voxel", fd), ("-vi", "--viewer", fc)] if viewer else [("-so", "--solution", fd), ("-pl", "--plotter", fc)])+[("-pm", "--plot_mode", mode), ("-f", "--folder", folder)]
                if arg_t is not None:
                    opts.append(("-tp", "--tag_plot", arg_t))
                if arg_s is not None:
                    opts.append(("-ts", "--tag_sweep", arg_s))
                argv = flip(rng, "viewer" if viewer else "plotter", "vi" if viewer else "pl", opts)
                invoke(how, pypeec.run_viewer_file if viewer else pypeec.run_plotter_file, (fd, fc), argv, kw)
            evs = plotlib.take()
            res[k] = (reslib.plot_signature(evs), sorted(tree(folder)))
            plotlib.release(evs)
        ctx.expect(res["data"][1] == res[how][1], "the same images are written", got=res[how][1], want=res["data"][1])
        same(res["data"][0], res[how][0], "plots of the %s interface" % how)
        ctx.count("plots", len(res["data"][0]))

    ctx.ploop("plots", ctx.n(48, 480), plots)

    # ---------------------------------------------------------------- failures
    def fails(rng, i):
        root = fresh("e", i)
        P = gen.random_problem(rng, nmax=(3, 3, 3))
        g = gen.geometry(P["n"], P["d"], P["c"], P["dom"])
        vox = ctx.call(pypeec.run_mesher_data, g)
        prob = gen.data_problem(P)
        j = lambda *a: os.path.join(root, *a)
        F = {"geo": put(j("geo.json"), g), "prob": put(j("prob.yaml"), prob), "tol": put(j("tol.json"), FAST), "vox": j("vox.pck"), "sol": j("sol.json.gz"),
             "view": put(j("view.json"), {"a": plotlib.viewer_plot(rng, "mesh", "T")}), "plot": put(j("plot.yml"), {"a": jsonable(plotlib.plotter_plot(rng, "material", "T"))})}
        scisave.write_data(F["vox"], vox)
        scisave.write_data(F["sol"], ctx.call(pypeec.run_solver_data, vox, prob, FAST))
        os.makedirs(j("dir.json"))
        with open(j("broken.json"), "w") as f:
            f.write("{]")
        with open(j("broken.yaml"), "w") as f:
            f.write("a: [1, 2\nb: {")
        with open(j("broken.pck"), "wb") as f:
            f.write(b"\x80\x04nothing")
        with open(j("broken.gz"), "wb") as f:
            f.write(b"no gzip")
        with open(j("empty.json"), "w") as f:
            pass
        shutil.copy(F["geo"], j("geo.txt"))
        shutil.copy(F["geo"], j("geo"))
        put(j("list.json"), [1, 2])
        bad_in = [j(x) for x in ("broken.json", "broken.yaml", "broken.gz", "empty.json", "geo.txt", "geo", "list.json", "missing.json", "dir.json", "missing/x.json")]
        bad_data = [j(x) for x in ("broken.pck", "broken.json", "broken.gz", "empty.json", "missing.pck", "geo.txt", "list.json", "geo.json")]
        bad_out = [j("nodir", "x.json"), j("out.xyz"), j("out"), j("dir.json")]
        me = lambda ge=F["geo"], vo=j("o1.json"): ["me", "-ge", ge, "-vo", vo]
        so = lambda vo=F["vox"], pr=F["prob"], to=F["tol"], s=j("o2.json"): ["so", "-vo", vo, "-pr", pr, "-to", to, "-so", s]
        vi = lambda vo=F["vox"], v=F["view"], ex=(): ["vi", "-vo", vo, "-vi", v]+(list(ex) or ["-pm", "debug"])
        pl = lambda s=F["sol"], p=F["plot"], ex=(): ["pl", "-so", s, "-pl", p]+(list(ex) or ["-pm", "debug"])
        good = [me(), so(), vi(), pl(), ["-v"], ["--version"], ["-h"], ["me", "-h"], ["so", "--help"]]
        runs = []
        for b in bad_in:
            runs += [me(ge=b), so(pr=b), so(to=b), vi(v=b), pl(p=b)]
        for b in bad_data:
            runs += [so(vo=b), vi(vo=b), pl(s=b)]
        for b in bad_out:
            runs += [me(vo=b), so(s=b)]
        runs += [vi(vo=F["sol"]), pl(s=F["vox"]), so(vo=F["sol"]), me(ge=F["prob"]), so(pr=F["tol"]), so(to=F["prob"]), vi(v=F["plot"]), pl(p=F["view"])]
        runs += [vi(ex=["-pm", "debug", "-tp", "zz"]), pl(ex=["-pm", "debug", "-tp", "zz"]), pl(ex=["-pm", "debug", "-ts", "zz"]), pl(ex=["-pm", "debug", "-ts", "sim", "zz"]),
                 vi(ex=["-pm", "debug", "-tp", "a", "zz"]), vi(ex=["-pm", "save", "-f", j("nodir")]), pl(ex=["-pm", "save", "-f", j("nodir")])]
        usage = [[], ["-q"], ["nothing"], ["--nothing"], ["me"], ["so"], ["vi"], ["pl"], ["me", "-ge", F["geo"]], ["me", "-vo", j("o1.json")], so()[:-2], so()[:1]+so()[3:], vi()[:3], pl()[:3],
                 vi(ex=["-pm", "window"]), pl(ex=["-pm", ""]), vi(ex=["-pm"]), vi(ex=["-pm", "debug", "-tp"]), pl(ex=["-pm", "debug", "-ts"]), me()+["extra"], me()+["-x", "1"], me()+["-vo"], ["Mesher"]+me()[1:], ["mesh"]+me()[1:],
                 ["examples"], ["documentation"], ["examples", j("x"), "y"], ["--geom", F["geo"]], pl()+["-vi", F["view"]]]
        sel = [("fail", x) for k in rng.permutation(len(runs))[:ctx.n(14, 40)] for x in [runs[k]]]
        sel += [("usage", usage[k]) for k in rng.permutation(len(usage))[:ctx.n(8, 20)]]
        sel += [("good", good[k]) for k in rng.permutation(len(good))[:4]]
        before = tree(root)
        for n, (what, argv) in enumerate(sel):
            if rng.random() < 0.3:
                argv = ["-q"]+argv
            how = "spawn" if n % 10 == 0 and i % 4 == 0 else "cli"
            ctx.case({"what": what, "argv": [x.replace(root, "") for x in argv], "how": how})
            plotlib.take()
            try:
                rc, out, err = (spawn if how == "spawn" else cli)(list(argv))
            except BaseException as ex:
                ctx.fail("the command line ends with a return code, not with an exception", got=repr(ex), argv=argv)
                continue
            finally:
                plotlib.release(plotlib.take())
            ctx.count("rc:%s" % what)
            if what == "good":
                ctx.expect(rc == 0, "a valid command returns zero", argv=argv, got=rc, err=err[-500:])
                if any(x in ("-v", "--version") for x in argv):
                    ctx.expect("PyPEEC" in out, "the version is displayed", got=out)
            else:
                ctx.expect(isinstance(rc, int) and rc != 0, "a failing or invalid command returns a failure code (%s)" % what, argv=argv, got=rc)
            after = tree(root)
            ok = {"o1.json", "o2.json"} if what == "good" else set()
            ctx.expect({k: v for k, v in after.items() if k not in ok} == {k: v for k, v in before.items() if k not in ok}, "no file is changed or left by a failing command", argv=argv, new=sorted(set(after)-set(before)))
            for x in ok & set(after):
                os.remove(j(x))
            for x in set(after)-set(before)-ok:
                before = after

    ctx.ploop("fails", ctx.n(16, 160), fails)

    # ---------------------------------------------------------------- extraction
    def extract(rng, i):
        root = fresh("x", i)
        pkg = os.path.join(root, "pkg")
        shutil.copytree(os.path.join(REPO, "pypeec"), os.path.join(pkg, "pypeec"), ignore=shutil.ignore_patterns("__pycache__", "*.zip"))
        content = {}
        for name in ("examples", "documentation"):
            c = {"%s/%s%d.txt" % (name, "sub/" if rng.random() < 0.5 else "", k): "%s %d %d" % (name, k, int(rng.integers(1000))) for k in range(int(rng.integers(1, 5)))}
            content[name] = c
        cmds = [("examples", False), ("documentation", False), ("examples", True), ("documentation", True)]
        ctx.case({"content": content})
        for (name, have) in cmds:
            arch = os.path.join(pkg, "pypeec", "data", name+".zip")
            if have:
                with zipfile.ZipFile(arch, "w") as z:
                    for k, v in content[name].items():
                        z.writestr(k, v)
            dest = os.path.join(root, "dest_%s_%s" % (name, have))
            os.makedirs(dest)
            rc, out, err = spawn([name, dest], cwd=root, repo=pkg)
            got = {k for k, v in tree(dest).items() if v != "dir"}
            if have:
                ctx.expect(rc == 0, "the extraction succeeds", got=rc, err=err[-600:])
                ctx.expect(got == set(content[name]) and all(open(os.path.join(dest, k)).read() == v for k, v in content[name].items()), "exactly the content of the archive is extracted", got=sorted(got), want=sorted(content[name]))
            else:
                ctx.expect(rc != 0, "the extraction of a missing archive fails", got=rc)
                ctx.expect(not got, "nothing is extracted from a missing archive")

    ctx.ploop("extract", ctx.n(6, 24), extract)
