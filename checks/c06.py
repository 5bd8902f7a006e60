"""C06: the BSP files the tools write are structurally valid; judged by BspValid.tla"""
import sys, os, struct, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, lit, bspread

S = 16
def r16(v):
    return int(round(v * S))
def lo16(v):
    import math
    return int(math.floor(v * S + 0.01))
def hi16(v):
    import math
    return int(math.ceil(v * S - 0.01))

def record(path, fromqbsp):
    b = bspread.read(path)
    h2 = getattr(b, "h2", False)
    ents = [int(x) for x in re.findall(r'"model"\s+"\*(\d+)"', b.entities)]
    c = dict(q2=b.q2, fromqbsp=fromqbsp, size=len(b.raw), header=(8 + 8 * 19) if b.q2 else 4 + 8 * 15)
    lumps = [[o, l] for n, o, l in b.dir]
    p = max([c["header"]] + [o + l for o, l in lumps])
    p = (p + 3) & ~3
    if b.raw[p:p + 4] == b"BSPX":
        n = struct.unpack_from("<i", b.raw, p + 4)[0]
        lumps.append([p, 8 + 32 * n])
        for i in range(n):
            _, o, l = struct.unpack_from("<24sii", b.raw, p + 8 + 32 * i)
            lumps.append([o, l])
    c["lumps"] = lumps
    c["planes"] = [dict(n=[int(round(v * 1024)) for v in n], d=r16(d), t=t) for n, d, t in b.planes]
    c["verts"] = [[r16(x) for x in v] for v in b.vertexes]
    c["edges"] = [list(e) for e in b.edges]
    c["surfedges"] = b.surfedges
    c["faces"] = [dict(p=f["plane"], s=f["side"], fe=f["firstedge"], ne=f["numedges"], ti=f["texinfo"], lo=f["lightofs"]) for f in b.faces]
    c["texinfo"] = [t.get("miptex", 0) for t in b.texinfo]
    c["nodes"] = [dict(p=n["plane"], c=list(n["ch"]), lo=[r16(x) for x in n["mins"]], hi=[r16(x) for x in n["maxs"]], ff=n["firstface"], nf=n["numfaces"]) for n in b.nodes]
    c["leafs"] = [dict(solid=l["contents"] == (1 if b.q2 else -2), vis=l["cluster"] if b.q2 else l["visofs"], lo=[r16(x) for x in l["mins"]], hi=[r16(x) for x in l["maxs"]],
                       fm=l["first"], nm=l["num"], fb=l.get("firstb", 0), nb=l.get("numb", 0), area=l.get("area", 0)) for l in b.leafs]
    c["clip"] = [dict(p=n["plane"], c=n["ch"]) for n in b.clipnodes]
    c["marks"] = b.marks
    c["leafbrushes"] = getattr(b, "leafbrushes", [])
    c["brushes"] = [[x["first"], x["num"]] for x in getattr(b, "brushes", [])]
    c["sides"] = [list(x) for x in getattr(b, "brushsides", [])]
    c["areas"] = [list(x) for x in getattr(b, "areas", [])]
    c["areaportals"] = [list(x) for x in getattr(b, "areaportals", [])]
    c["models"] = [dict(lo=[r16(x) for x in m["mins"]], hi=[r16(x) for x in m["maxs"]], ff=m["firstface"], nf=m["numfaces"], visleafs=m.get("visleafs", 0)) for m in b.models]
    c["entmodels"] = ents
    c["vislen"] = len(b.visibility)
    c["lightlen"] = len(b.lumps["lighting"])
    c["clusters"] = struct.unpack_from("<i", b.visibility, 0)[0] if b.q2 and b.visibility else 0
    tx, t = [], b.lumps.get("textures", b"")
    if t:
        for i in range(struct.unpack_from("<i", t, 0)[0]):
            o = struct.unpack_from("<i", t, 4 + 4 * i)[0]
            d = dict(o=o, w=0, h=0, m=[0] * 4, named=False)
            if o >= 0 and o + 40 <= len(t):
                nm, w, h, *m = struct.unpack_from("<16sII4I", t, o)
                d.update(w=min(w, 20000), h=min(h, 20000), m=[min(x, 2**30) for x in m], named=b"\0" in nm and nm[0] != 0)
            tx.append(d)
    c["textures"], c["texlen"] = tx, len(t)
    hulls = 1 if b.q2 else {"hl": 4}.get(b.fmt, 6 if h2 else 3)
    c["trees"] = [dict(model=i, hull=h, head=m["head"][h]) for i, m in enumerate(b.models) for h in range(hulls)]
    return c

INV = ["ILumps", "IPlanes", "IRNodes", "IRLeafs", "IRClip", "ITrunks", "IRMarks", "IRLeafBrushes", "IRSurfedges", "IREdges", "IRFaces", "IRTexinfo", "IRBrushes", "IRSides", "IRAreas", "IRAreaPortals", "IREntities", "ITextures", "ILoops", "IShapes", "IShared", "IModels", "ISolid", "IBoxes", "Once", "All", "LeafRuns", "IMarks", "INodeFaces"]

def make(c, rng, i):
    game = rng.choice(list(lit.GAMES))
    q2 = game in ("q2", "qbism")
    kinds = ["solid", "solid", "water", "lava", "slime", "detail", "sky"] if q2 else compiler.ALLKINDS
    m, _ = lit.gen(rng, kinds, game) if rng.random() < 0.7 else (mapgen.gen(rng, kinds, leak=0.15, cells=(6, 5, 4), nbrush=(5, 16), scale=(16, 64)), 0)
    if not m:
        return None
    if rng.random() < 0.6:
        compiler.add_bmodels(rng, m, rng.randrange(1, 4))
    qargs = lit.GAMES[game] + rng.choice(compiler.NEUTRAL) + rng.choice(compiler.NEUTRAL + [[]] * 10) + rng.choice(compiler.SEMANTIC + [[]] * 10)
    m.world["wad"] = "t.wad"
    return dict(i=i, m=m, game=game, q2=q2, qargs=qargs, wad=mapgen.wad2(mapgen.texnames(m), palette=game == "hl"), extra=rng.randrange(30),
                largs=rng.choice([[], ["-lit"], ["-lmshift", "3", "-bspxlit"], ["-world_units_per_luxel", "8", "-bspx"], ["-lightgrid"]]))

def check(c):
    exe = c.build("qbsp", "vis", "light", "bsputil")
    rng = c.rng
    jobs = [j for j in (make(c, rng, i) for i in range(c.n(200, 3000))) if j]
    def go(j):
        d = c.dir("%d" % j["i"])
        with open(os.path.join(d, "t.wad"), "wb") as f:
            f.write(j["wad"])
        out = []
        p = os.path.join(d, "m.bsp")
        def keep(name, what, q):
            t = os.path.join(d, name + ".bsp")
            shutil.copy(p, t)
            try:
                out.append((what, t, record(t, q), None))
            except bspread.BadBSP as e:
                out.append((what, t, None, str(e)))
        try:
            r = compiler.compile_map(exe["qbsp"], j["m"], d, args=j["qargs"])
        except bspread.BadBSP as e:
            return j, [("qbsp", p, None, str(e))]
        if r.bsp is None:
            return j, [("qbsp", p, None, "failed: " + r.log[-500:])]
        keep("qbsp", "qbsp " + " ".join(j["qargs"]), True)
        if r.prt:
            rc, log = vlib.run([exe["vis"], "-nostate", "-threads", "1", p], cwd=d, timeout=200)
            keep("vis", "vis", True)
        rc, log = vlib.run([exe["light"], "-threads", "1"] + j["largs"] + [p], cwd=d, timeout=200)
        keep("light", "light " + " ".join(j["largs"]), True)
        with open(os.path.join(d, "x.dat"), "wb") as f:
            f.write(b"x" * j["extra"])
        b = bspread.read(p)
        group = ["hexen2", "hexen2bsp2", "hexen2bsp2rmq"] if getattr(b, "h2", False) else ["q2bsp", "qbism"] if b.q2 else ["hl"] if b.fmt == "hl" else ["bsp29", "bsp2", "bsp2rmq"]
        to = group[j["extra"] % len(group)]
        vlib.run([exe["bsputil"], "--convert", to, "--insert-bspx-lump", "EXTRA", "x.dat", "m.bsp"], cwd=d, timeout=60)
        keep("util", "bsputil --insert-bspx-lump", True)
        shutil.move(os.path.join(d, "m-" + to), p)
        keep("conv", "bsputil --convert " + to, True)
        return j, out
    cases, meta = [], []
    for j, out in vlib.pmap(go, jobs):
        for what, path, case, err in out:
            files = [os.path.join(c.scratch, str(j["i"]), "m.map"), path]
            if err:
                c.violation("C06 map %d after %s: %s" % (j["i"], what, err), files)
                continue
            cases.append(case)
            meta.append((j, what, files))
            c.count("files")
            for k in ("nodes", "leafs", "clip", "faces", "brushes"):
                c.count(k, len(case[k]))
    for k, inv, trace in vlib.tlc_cases(c, "BspValid", INV, cases, weight=lambda x: len(x["faces"]) * 8 + len(x["nodes"]) + len(x["clip"])):
        j, what, files = meta[k]
        c.violation("C06 %s: map %d (%s) after %s\n%s" % (inv, j["i"], j["game"], what, trace[-600:]), files)

if __name__ == "__main__":
    vlib.main(check, "C06")
