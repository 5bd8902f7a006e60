"""C22/C23 lightmaps: random lit worlds, compiled by the real qbsp and lit by the real light, judged by Lightmap.tla"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread, lit, lightmap

def texture(rng, b, i):
    base = mapgen.KINDS[b.kind][0]
    b.tp = [(rng.randrange(-4, 5) * 8, rng.randrange(-4, 5) * 8, rng.choice([1, 1, 1, 2, -1]), rng.choice([1, 1, 1, 2])) for _ in range(6)]
    b.texs = [base] * 6 if b.kind in ("sky", "hint", "clip") else ["%s%d_%d" % (base[:6], i, k) for k in range(6)]
    def text():
        s = "{\n"
        for (p, q, r), t, (ox, oy, sx, sy) in zip(mapgen.box_faces(b.lo, b.hi), b.texs, b.tp):
            s += "( %d %d %d ) ( %d %d %d ) ( %d %d %d ) %s %d %d 0 %d %d\n" % (p + q + r + (t, ox, oy, sx, sy))
        return s + "}\n"
    b.text = text

def make(c, rng, i, prop):
    game = rng.choice(["q1", "q1"] + list(lit.GAMES))
    q2 = game in ("q2", "qbism")
    kinds = (["solid", "solid", "detail"] if q2 else lit.ROOM + (["water", "lava"] if prop == "C22" else [])) + (["sky"] if rng.random() < 0.25 else [])
    m, lights = lit.gen(rng, kinds, game)
    if not m or not lights:
        return None
    if not q2:
        for n, b in enumerate(m.brushes + [x for _, bs, _ in m.bmodels for x in bs]):
            texture(rng, b, n)
    qargs = lit.GAMES[game] + rng.choice([[], [], ["-nofill"], ["-nodetail"], ["-maxnodesize", "64"], ["-subdivide", "128"], ["-nomerge"], ["-subdivide", "64"]])
    largs = ["-threads", str(rng.choice([1, 2, 8]))]
    j = dict(i=i, m=m, lights=lights, game=game, mode="plain", scale=16, vanilla=True, exact=True, q2=q2, again=None)
    k = rng.random()
    if k < 0.3:
        j["mode"] = "shift"
        r = rng.random()
        if r < 0.4:
            largs += ["-lmshift", str(rng.choice([2, 3, 3, 4, 5]))]
        elif r < 0.8:
            m.world["_lmscale"] = str(rng.choice([4, 8, 16, 32]))
            for _, _, keys in m.bmodels:
                if rng.random() < 0.7:
                    keys["_lmscale"] = str(rng.choice([4, 8, 16, 32]))
            if rng.random() < 0.3:
                qargs += ["-lmscale", str(rng.choice([4, 8, 32]))]
        else:
            j["slots"] = rng.choice([5, 6, 8])
            largs += ["-facestyles", str(j["slots"])]
    elif k < 0.55:
        j["mode"] = "decoupled"
        j["wupl"] = rng.choice([4, 8, 8, 16, 32])
        largs += ["-world_units_per_luxel", str(j["wupl"])]
    elif k < 0.7:
        j["scale"] = rng.choice([8, 32, 4])
        if rng.random() < 0.5:
            largs += ["-lightmap_scale", str(j["scale"])]
        else:
            m.world["_lightmap_scale"] = str(j["scale"])
    if j["mode"] != "plain" and rng.random() < 0.35:
        largs += ["-novanilla"]
        j["vanilla"] = False
    r10, s10 = rng.choice([5, 5, 10, 8]), rng.choice([10, 10, 5, 20])
    if q2:
        largs += ["-bounce", "0"]
    if r10 != (10 if q2 else 5):
        largs += ["-range", "%g" % (r10 / 10)]
    if s10 != 10:
        largs += ["-dist", "%g" % (s10 / 10)]
    if rng.random() < (0.3 if prop == "C22" else 0):
        largs += [rng.choice(["-extra", "-extra4", "-soft"])]
        j["exact"] = False
    # rays (the default without visibility data) is an approximation by sampling: it may miss lights that are seen through a gap
    largs += rng.choice([["-visapprox", "none"], ["-visapprox", "vis"]] + ([[], ["-visapprox", "rays"]] if prop == "C22" else []))
    if not q2 and game != "hl":
        largs += rng.choice([[], ["-lit"], ["-bspxlit"], ["-bspx"], ["-lit", "-bspxlit"]])
    # places beyond a face's edge may see more than the leafs of the face, so visibility data can change those
    j["again"] = rng.choice([None, ["-threads", str(rng.choice([1, 3, 8]))], ["-visapprox", rng.choice(["none", "vis"])]])
    if "-lit" in largs and j["mode"] == "plain" and rng.random() < 0.8:
        j["again"] = ["-litonly"]
    j.update(vis=j["again"] in (None, ["-threads", "1"], ["-threads", "3"], ["-threads", "8"]) and rng.random() < (0.25 if prop == "C22" else 0.7), qargs=qargs, largs=largs, range10=r10, s10=s10)
    return j

def check(c, prop):
    exe = c.build("qbsp", "vis", "light")
    rng = c.rng
    jobs = [j for j in (make(c, rng, i, prop) for i in range(c.n(260, 4000) if prop == "C22" else c.n(160, 2500))) if j]
    def go(j):
        d = c.dir("%d" % j["i"])
        m = j["m"]
        with open(os.path.join(d, "t.wad"), "wb") as f:
            f.write(mapgen.wad2(mapgen.texnames(m), palette=j["game"] == "hl"))
        m.world["wad"] = "t.wad"
        try:
            r = compiler.compile_map(exe["qbsp"], m, d, args=j["qargs"])
            if r.bsp is None:
                return j, None, None, "qbsp: " + r.log[-600:]
            if j["vis"] and r.prt:
                rc, log = vlib.run([exe["vis"], "-nostate", "-threads", "2", r.bsp_path], cwd=d, timeout=300)
                if rc:
                    return j, None, None, "vis %s: %s" % (rc, log[-1500:])
                c.count("maps_with_visibility")
            if j["again"] and j["again"] != ["-litonly"]:
                a2 = os.path.join(d, "again.bsp")
                with open(r.bsp_path, "rb") as s, open(a2, "wb") as t:
                    t.write(s.read())
            rc, log = lit.relight(exe["light"], r.bsp_path, j["largs"], cwd=d)
            if rc:
                return j, None, None, "light %d: %s" % (rc, log[-1500:])
            b2 = None
            if j["again"] == ["-litonly"] and bspread.read(r.bsp_path).lumps["lighting"]:
                # the same lights once more, into a .lit beside an untouched .bsp
                lit_path, old = r.bsp_path[:-4] + ".lit", open(r.bsp_path, "rb").read()
                j["lits"] = [open(lit_path, "rb").read()]
                os.remove(lit_path)
                rc, log = lit.relight(exe["light"], r.bsp_path, j["largs"] + j["again"], cwd=d)
                if rc:
                    return j, None, None, "light -litonly %d: %s" % (rc, log[-1500:])
                j["lits"].append(open(lit_path, "rb").read() if os.path.exists(lit_path) else b"")
                j["untouched"] = open(r.bsp_path, "rb").read() == old
                c.count("lit_only")
            elif j["again"] and j["again"] != ["-litonly"]:
                rc, log = lit.relight(exe["light"], a2, j["largs"] + j["again"], cwd=d)
                if rc:
                    return j, None, None, "light %d: %s" % (rc, log[-1500:])
                b2 = bspread.read(a2)
            return j, bspread.read(r.bsp_path), b2, None
        except bspread.BadBSP as e:
            return j, None, None, str(e)
    cases, meta = [], []
    for j, b, b2, err in vlib.pmap(go, jobs):
        m, d = j["m"], os.path.join(c.scratch, str(j["i"]))
        files = [os.path.join(d, x) for x in ("m.map", "m.bsp")]
        what = "%s map %d, qbsp %s, light %s" % (prop, j["i"], " ".join(j["qargs"]), " ".join(j["largs"]))
        if err:
            c.violation("%s: %s" % (what, err), files)
            continue
        shadows = [True] + [bool(x[2].get("_shadow")) for x in m.bmodels]
        try:
            fs = lit.faces(b, shadows)
            t = lit.tree(b)
            rec = lightmap.record(b, fs, files[1], j["scale"], j["vanilla"], j["mode"])
        except bspread.BadBSP as e:
            c.violation("%s: %s" % (what, e), files)
            continue
        els = sum(max(0, f["dw"] * f["dh"] if j["mode"] == "decoupled" else (f["hi"][0] - f["lo"][0]) * (f["hi"][1] - f["lo"][1]) // (f["xsc"] ** 2))
                  for f in rec["faces"] if not f["sp"])
        budget = c.n(500, 1500)
        rec.update(tree=t, lights=j["lights"], range10=j["range10"], s10=j["s10"], exact=j["exact"], stride=max(1, els // budget), salt=j["i"],
                   boxes=[dict(lo=x.lo, hi=x.hi) for _, bs, _ in m.bmodels for x in bs], wupl=j.get("wupl", 0), same=True, slots=j.get("slots", 4))
        if b2 is not None:
            rec["same"] = b2.lumps["lighting"] == b.lumps["lighting"] and [(f["lightofs"], list(f["styles"])) for f in b.faces] == [(f["lightofs"], list(f["styles"])) for f in b2.faces] \
                and {k: v for k, v in b.bspx.items()} == {k: v for k, v in b2.bspx.items()}
            c.count("lit_twice")
        if "lits" in j:
            rec["same"] = j["lits"][0] == j["lits"][1] and j["untouched"]
        c.count("maps")
        c.count("faces", rec["nfaces"])
        c.count("lightmap_bytes", rec["size"])
        if prop == "C23":
            c.count("elements_judged", els // rec["stride"])
        if rec["nfaces"]:
            c.sample({"mode": j["mode"], "args": j["largs"], "bytes": rec["size"], "lights": len(j["lights"])})
        cases.append(rec)
        meta.append(("%s (again %s)" % (what, j["again"]), files))
    invs = ["Whole", "Tight", "Owns", "Placed", "Decoupled", "Coloured", "Derived"] if prop == "C22" else ["Same", "Lit"]
    bad = vlib.tlc_cases(c, "Lightmap", invs, cases,
                         weight=lambda r: 20 + r["size"] / 500 + (r["nfaces"] * len(r["lights"]) * 20 if prop == "C23" else r["nfaces"]))
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-1500:]), meta[k][1], data=cases[k])
    c.assumptions += ["axis-aligned worlds with whole coordinates; lines of sight that come within 1/8 unit of an edge may go either way",
                      "python reader tools/bspread.py and tools/lightmap.py decode the files"]

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.argv = sys.argv[:1] + sys.argv[2:]
    vlib.main(lambda c: check(c, prop), prop)
