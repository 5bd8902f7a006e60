"""C04 faces: real qbsp runs on random worlds judged by Faces.tla"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread

FACEOPTS = [[], [], [], ["-nomerge"], ["-subdivide", "64"], ["-subdivide", "128"], ["-nosubdivide"], ["-notjunc"], ["-tjunc", "rotate"], ["-tjunc", "retopologize"], ["-tjunc", "mwt"],
            ["-nomergeacrossliquids"], ["-includeskip"], ["-noedgereuse"], ["-notranswater"], ["-splitspecial"], ["-splitsky"],
            ["-splitturb"], ["-forcegoodtree"], ["-chop"], ["-nochop"], ["-maxnodesize", "64"], ["-midsplitsurffraction", "1"], ["-bsp2"], ["-2psb"], ["-hexen2"],
            ["-maxedges", "8"], ["-maxedges", "5"], ["-nofill"], ["-filldetail", "0"], ["-filltype", "outside"], ["-nodetail"], ["-omitdetail"], ["-nomerge", "-chop"], ["-subdivide", "96", "-maxedges", "6"]]

def texture(rng, b, i, skip):
    base = mapgen.KINDS[b.kind][0]
    b.tp = [(rng.randrange(-4, 5) * 8, rng.randrange(-4, 5) * 8, rng.choice([1, 1, 2, -1]), rng.choice([1, 1, 2])) for _ in range(6)]
    if b.kind in ("clip", "hint"):
        b.texs = [base] * 6
    elif b.kind == "sky":
        b.texs = ["sky%d_%d" % (i % 3, k % 2) for k in range(6)]
    else:
        b.texs = ["%s%d_%d" % (base[:6], i, k) for k in range(6)]
        if base[0] != "*" and rng.random() < skip:
            for k in range(6):
                if rng.random() < 0.4:
                    b.texs[k] = "skip"
    def text():
        s = "{\n"
        for (p, q, r), t, (ox, oy, sx, sy) in zip(mapgen.box_faces(b.lo, b.hi), b.texs, b.tp):
            s += "( %d %d %d ) ( %d %d %d ) ( %d %d %d ) %s %d %d 0 %d %d\n" % (p + q + r + (t, ox, oy, sx, sy))
        return s + "}\n"
    b.text = text

def tex_record(b):
    return [{"n": b.texs[k], "vec": compiler.quake_vecs(k // 2, b.tp[k])} for k in range(6)]

def kept(k, o, model):
    """is a brush of this kind in the drawing hull (mirrors Kind0 only to keep textures in step with boxes)"""
    if model:
        return k != "clip"
    if k in ("clip", "hint"):
        return False
    if k in ("detail", "fence", "wall", "illus") and not o.get("nodetail"):
        if o.get("omitdetail") or o.get("omitdetail" + {"illus": "illusionary"}.get(k, k)):
            return False
    return True

def check(c):
    exe = c.build("qbsp")["qbsp"]
    rng = c.rng
    jobs = []
    for i in range(c.n(400, 5000)):
        kinds = rng.choice([compiler.ALLKINDS, ["solid", "water", "lava", "slime", "fence"], ["solid", "detail", "wall", "fence", "illus", "sky"]])
        m = mapgen.gen(rng, kinds, leak=0.08, cells=(4, 4, 3), nbrush=(3, 8))
        if rng.random() < 0.3:
            compiler.add_bmodels(rng, m, 1)
        skip = rng.choice([0, 0, 0.3])
        n = 0
        for b in m.brushes + [x for _, bs, _ in m.bmodels for x in bs]:
            texture(rng, b, n, skip)
            n += 1
        args = list(rng.choice(FACEOPTS))
        if rng.random() < 0.2:
            args += rng.choice(FACEOPTS)
        jobs.append((i, m, args))
    def go(j):
        i, m, args = j
        with open(os.path.join(c.dir("%d" % i), "t.wad"), "wb") as f:
            f.write(mapgen.wad2(mapgen.texnames(m)))
        m.world["wad"] = "t.wad"
        try:
            return j, compiler.compile_map(exe, m, c.dir("%d" % i), args=args, threads=1 + i % 3), None
        except bspread.BadBSP as e:
            return j, None, str(e)
    cases, meta = [], []
    for (i, m, args), r, err in vlib.pmap(go, jobs):
        mp = os.path.join(c.scratch, str(i), "m.map")
        what = "C04 qbsp %s on map %d" % (" ".join(args), i)
        if err or r.bsp is None:
            c.violation("%s: no readable BSP: %s" % (what, err or (r.rc, r.log[-1000:])), [mp])
            continue
        b = r.bsp
        c.count("maps")
        for model in range(len(b.models)):
            if model > len(m.bmodels):
                break
            try:
                if model == 0:
                    d = compiler.box_case(m, r, "q1", 0, False)
                    src = m.brushes
                else:
                    src = m.bmodels[model - 1][1]
                    d = compiler.model_case(m, r, "q1", 0, model, src, False)
                fs = compiler.face_records(b, model)
                used = {k for k in leaves(d["tree"])}
                marks = compiler.leaf_marks(b, model, 0)
                d["marks"] = [mk if -(k + 1) in used else [] for k, mk in enumerate(marks)]
            except (bspread.BadBSP, IndexError, KeyError) as e:
                c.violation("%s: %r" % (what, e), [mp, r.bsp_path])
                continue
            if "-includeskip" in args:
                d["opts"]["includeskip"] = True
            d["faces"] = fs
            d["cuts"] = compiler.face_cuts(fs)
            ks = [s for s in src if kept(s.kind, d["opts"], model)]
            d["tex"] = [tex_record(s) for s in ks]
            d["hasskip"] = any("skip" in s.texs for s in ks) and "-includeskip" not in args
            c.count("faces", len(fs))
            if fs and model == 0:
                c.sample({"args": args, "faces": len(fs), "first": fs[0]})
            cases.append(d)
            meta.append(("%s model %d" % (what, model), mp, r.bsp_path))
    bad = vlib.tlc_cases(c, "Faces", ["Shapes", "Drawn", "Total", "Marks"], cases, spec="FSpec",
                         consts="ALIAS FAlias\nCONSTANT Skip0 = FALSE\n", weight=lambda d: 5 + len(d["faces"]))
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-3000:]), meta[k][1:], data=cases[k])
    c.assumptions += ["worlds of axis-aligned boxes with integer coordinates", "python reader tools/bspread.py decodes the BSP file"]

def leaves(t):
    out = {t["head"]} if t["head"] < 0 else set()
    for n in t["nodes"]:
        for x in n["c"]:
            if x < 0:
                out.add(x)
    return out

if __name__ == "__main__":
    vlib.main(check, "C04")
