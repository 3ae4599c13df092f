"""C13: image meshes."""
import os
import numpy as np
import PIL.Image as pmg
import pypeec
import gen, meshlib
from meshlib import doms

RULE = ("random PNG images (RGBA, RGB, palette, grey, black and white, with alpha channels, palette alphas or a transparent colour; transparent and close colours) written to a scratch folder, random colour maps, several images per layer, layer stacks with reused files and unequal "
        "thickness; every voxel is compared with the pixel it must come from; wrong sizes, files and colours must be rejected; non-trivial: at least two domains hold voxels")
ASSUMPTIONS = ["images are written with Pillow; pixels without an alpha channel, palette alpha or transparent colour count as opaque"]
PAL = [(255, 0, 0, 255), (254, 0, 0, 255), (0, 255, 0, 255), (0, 0, 255, 255), (0, 0, 0, 255), (0, 0, 0, 0), (9, 8, 7, 0), (255, 255, 255, 0), (255, 255, 255, 255), (255, 0, 0, 128), (10, 20, 30, 255), (30, 20, 10, 255), (128, 128, 128, 255)]


def rgba(img):
    """Pixels of an image as [row][col] RGBA tuples (independent of the conversion used by the code for RGB/P/L)."""
    w, h = img.size
    out = []
    # transparency chunk: one alpha per palette entry, or one fully transparent entry, grey value or colour
    clear = img.info.get("transparency")
    for r in range(h):
        row = []
        for q in range(w):
            p = img.getpixel((q, r))
            if img.mode in ("L", "1"):
                p = (p, p, p, 0 if img.mode == "L" and p == clear else 255)
            elif img.mode == "LA":
                p = (p[0], p[0], p[0], p[1])
            elif img.mode == "RGB":
                p = (*p, 0 if p == clear else 255)
            elif img.mode == "P":
                k = p
                pal = img.getpalette()
                alpha = (clear[k] if k < len(clear) else 255) if isinstance(clear, bytes) else (0 if k == clear else 255)
                p = (*pal[3*k:3*k+3], alpha)
            row.append(tuple(int(x) for x in p))
        out.append(row)
    return out


def rand_image(rng, nx, ny, colors, mode):
    img = pmg.new("RGBA", (nx, ny))
    blocky = rng.random() < 0.4
    last = colors[0]
    for r in range(ny):
        for q in range(nx):
            if not blocky or rng.random() < 0.3:
                last = colors[int(rng.integers(len(colors)))]
            img.putpixel((q, r), last)
    if mode == "RGB":
        img = img.convert("RGB")
    if mode == "L":
        img = img.convert("RGB").convert("L")
    if mode == "P":
        img = img.convert("RGB").quantize(32)
    if mode == "PA":
        # palette with transparent entries
        img = img.quantize(32, method=pmg.Quantize.FASTOCTREE)
    if mode == "LA":
        img = img.convert("LA")
    if mode == "1":
        img = img.convert("RGB").convert("1")
    return img


def geometry(d, c, size, colors, stack, **kw):
    return gen.merge({
        "mesh_type": "png",
        "data_voxelize": {"param": {"d": [float(x) for x in d], "c": [float(x) for x in c], "size": [int(x) for x in size]}, "domain_color": colors, "layer_stack": stack},
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}}}, kw)


def run(ctx):
    def case(rng, i):
        nx, ny = [int(x) for x in rng.integers(1, 9 if rng.random() < 0.9 else 40, 2)]
        colors = [PAL[k] for k in rng.permutation(len(PAL))[:int(rng.integers(2, 8))]]
        files, pix = [], []
        for k in range(int(rng.integers(1, 5))):
            mode = str(rng.choice(["RGBA", "RGBA", "RGBA", "RGB", "L", "P", "PA", "LA", "1"]))
            img = rand_image(rng, nx, ny, colors, mode)
            # different images can share a file name (different folders)
            fold = os.path.join(ctx.scratch, "f%d" % k) if rng.random() < 0.5 else ctx.scratch
            os.makedirs(fold, exist_ok=True)
            path = os.path.join(fold, "img_%d.%s" % (0 if fold != ctx.scratch else k, "png" if rng.random() < 0.8 else "dat"))
            # a colour can be declared as transparent
            clear = {"transparency": img.getpixel((0, 0))} if img.mode in ("RGB", "L", "P") and mode != "PA" and rng.random() < 0.3 else {}
            img.save(path, format="PNG", **clear)
            files.append(path)
            ctx.count("mode_"+mode+("t" if clear else ""))
            with pmg.open(path) as im:
                im.load()
                pix.append(rgba(im))
        stack, lay = [], []
        for k in range(int(rng.integers(1, 5))):
            sel = [int(x) for x in rng.permutation(len(files))[:int(rng.integers(1, min(3, len(files))+1))]]
            nl = int(rng.integers(1, 4))
            stack.append({"n_layer": nl, "filename_list": [files[q] for q in sel]})
            lay += [sel]*nl
        used = sorted({p for im in pix for row in im for p in row} | set(colors))
        rng.shuffle(used)
        k = int(rng.integers(1, min(4, len(used))+1))
        cols = {}
        pool = [tuple(int(x) for x in u) for u in used][:k+int(rng.integers(0, 3))]
        for q, p in enumerate(pool):
            cols.setdefault("dom_%d" % (q % k), []).append(list(p))
        names = list(cols)
        if rng.random() < 0.2:
            # the same colour twice
            cols[names[0]].append(list(cols[names[0]][0]))
        rules = [{"domain_resolve": names[a:], "domain_keep": [names[a-1]]} for a in range(1, len(names))]
        d, c = gen.rand_size(rng), rng.normal(size=3)
        # expected: pixel row r from the top is y = ny-1-r
        want = {t: set() for t in names}
        for z, sel in enumerate(lay):
            for q in sel:
                for r in range(ny):
                    for x in range(nx):
                        for t in names:
                            if list(pix[q][r][x]) in cols[t]:
                                want[t].add(x+nx*((ny-1-r)+ny*z))
        over = sum(map(len, want.values())) > len(set().union(*want.values()))
        for a in range(1, len(names)):
            for b in names[a:]:
                want[b] = want[b]-want[names[a-1]] if over else want[b]
        if not any(want.values()):
            return
        g = geometry(d, c, (nx, ny), cols, stack, data_conflict={"resolve_rules": bool(over), "conflict_rules": rules if over else []})
        ctx.case({"size": [nx, ny], "colors": cols, "stack": [[s["n_layer"], len(s["filename_list"])] for s in stack], "pixels": pix if nx*ny <= 12 else "large"}, sum(1 for v in want.values() if v) > 1)
        out = meshlib.mesh(ctx, g)
        meshlib.check_common(ctx, out)
        ctx.expect(list(out["n"]) == [nx, ny, len(lay)], "grid size", got=out["n"], want=[nx, ny, len(lay)])
        ctx.close(np.array(out["d"], float), d, 1e-14, "voxel dimension")
        ctx.close(np.array(out["c"], float), c, 1e-14, "centre", scale=1.0)
        got = doms(out)
        ctx.expect(list(got) == names, "domain names")
        for t in names:
            ctx.expect(set(got[t]) == want[t] and len(got[t]) == len(want[t]), "voxels of a domain are the pixels of its colours", domain=t, got=sorted(got[t]), want=sorted(want[t]), n=[nx, ny, len(lay)])
        ctx.count("overlap", int(over)); ctx.count("voxels", sum(map(len, want.values())))
        # violations
        for what, size in (("wider", (nx+1, ny)), ("taller", (nx, ny+1)), ("narrower", (nx-1, ny)), ("transposed", (ny, nx))):
            if tuple(size) == (nx, ny):
                continue
            h = gen.merge(g, {})
            h["data_voxelize"]["param"]["size"] = list(size)
            ctx.raises(pypeec.run_mesher_data, h, what="declared size %s" % what)
        # one image of another size in a later layer
        path = os.path.join(ctx.scratch, "odd.png")
        rand_image(rng, nx+1, ny, colors, "RGBA").save(path)
        h = gen.merge(g, {})
        h["data_voxelize"]["layer_stack"].append({"n_layer": 1, "filename_list": [files[0], path]})
        ctx.raises(pypeec.run_mesher_data, h, what="one image of another size")
        txt = os.path.join(ctx.scratch, "text.png")
        with open(txt, "w") as f:
            f.write("not an image")
        jpg = os.path.join(ctx.scratch, "jpeg.png")
        pmg.new("RGB", (nx, ny)).save(jpg, format="JPEG")
        for what, name in (("missing", os.path.join(ctx.scratch, "none.png")), ("not an image", txt), ("not a PNG", jpg), ("a folder", ctx.scratch)):
            h = gen.merge(g, {})
            h["data_voxelize"]["layer_stack"][-1]["filename_list"] = [name]
            ctx.raises(pypeec.run_mesher_data, h, what="image file: "+what)
        for what, ed in (("colour of three values", [[1, 2, 3]]), ("colour above 255", [[256, 0, 0, 255]]), ("negative colour", [[-1, 0, 0, 255]]), ("no colour", []), ("text colour", [["a", 0, 0, 255]])):
            h = gen.merge(g, {})
            h["data_voxelize"]["domain_color"]["dom_0"] = ed
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        for what, ed in (("zero layers", 0), ("negative layers", -1), ("fractional layers", 1.5)):
            h = gen.merge(g, {})
            h["data_voxelize"]["layer_stack"].append({"n_layer": ed, "filename_list": [files[0]]})
            ctx.raises(pypeec.run_mesher_data, h, what=what)
        if over:
            h = gen.merge(g, {"data_conflict": {"resolve_rules": False}})
            ctx.raises(pypeec.run_mesher_data, h, what="pixel of two domains in one layer")

    def large(rng, i):
        nx, ny = [int(x) for x in np.exp(rng.uniform(np.log(8), np.log(420), 2))]
        nc = int(rng.choice([3, 20, 120]))
        # colours from the whole cube, some differing by one step in one channel only
        colors = [tuple(int(x) for x in rng.integers(0, 256, 4)) for _ in range(nc)]
        for _ in range(nc//3+1):
            p = list(colors[int(rng.integers(nc))]); q = int(rng.integers(4))
            p[q] = p[q]-1 if p[q] == 255 or (p[q] and rng.random() < 0.5) else p[q]+1
            colors.append(tuple(p))
        colors = sorted(set(colors)); rng.shuffle(colors)
        colors = [tuple(int(x) for x in p) for p in colors]
        arr, files = [], []
        for k in range(int(rng.integers(1, 9))):
            a = rng.integers(0, len(colors), (ny, nx))
            if k % 2:
                a = np.repeat(np.repeat(a[::5, ::7], 5, axis=0), 7, axis=1)[:ny, :nx]
            arr.append(a)
            files.append(os.path.join(ctx.scratch, "large_%d.png" % k))
            pmg.fromarray(np.array(colors, dtype=np.uint8)[a], "RGBA").save(files[-1])
        stack, lay = [], []
        while len(lay) < 1 or (rng.random() < 0.8 and len(lay)*nx*ny < 1.5e5 and len(stack) < 30):
            sel = [int(x) for x in rng.permutation(len(files))[:int(rng.integers(1, len(files)+1))]]
            nl = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 40))
            nl = max(1, min(nl, int(2e5//(nx*ny))))
            stack.append({"n_layer": nl, "filename_list": [files[q] for q in sel]})
            lay += [sel]*nl
        k = int(rng.integers(1, min(40, len(colors))+1))
        pool = [int(x) for x in rng.permutation(len(colors))[:int(rng.integers(k, len(colors)+1))]]
        own = {"dom_%d" % t: pool[t::k] for t in rng.permutation(k)}
        names = list(own)
        cols = {t: [list(colors[q]) for q in v] for t, v in own.items()}
        want = {}
        for t in names:
            has = [np.isin(a, own[t])[::-1] for a in arr]
            lay_idx = [np.flatnonzero(np.any([has[q] for q in sel], axis=0).ravel())+z*nx*ny for z, sel in enumerate(lay)]
            want[t] = set(np.concatenate(lay_idx).tolist())
        # voxels claimed by several domains (different images of a layer): the first domain keeps them
        rules = [{"domain_resolve": names[a:], "domain_keep": [names[a-1]]} for a in range(1, len(names))]
        seen = set()
        for t in names:
            want[t] -= seen
            seen |= want[t]
        if not seen:
            return
        g = geometry(gen.rand_size(rng), rng.normal(size=3), (nx, ny), cols, stack, data_conflict={"resolve_rules": True, "conflict_rules": rules})
        ctx.case({"size": [nx, ny], "colors": len(colors), "domains": k, "stack": [[s["n_layer"], len(s["filename_list"])] for s in stack], "used": len(seen)}, k > 1)
        out = meshlib.mesh(ctx, g)
        ctx.expect(list(out["n"]) == [nx, ny, len(lay)], "grid size (large)", got=out["n"], want=[nx, ny, len(lay)])
        got = doms(out)
        ctx.expect(list(got) == names, "domain names")
        bad = [t for t in names if set(got[t]) != want[t] or len(got[t]) != len(want[t])]
        ctx.expect(not bad, "voxels of a domain are the pixels of its colours (large)", domains=bad[:5], size=[nx, ny, len(lay)])
        ctx.count("voxels_large", len(seen))
    ctx.ploop("large", ctx.n(24, 240), large)

    ctx.ploop("random", ctx.n(240, 3000), case)
    if not ctx.only:
        ctx.expect(ctx.counters.get("overlap", 0) > 0, "workload reaches overlapping images")
