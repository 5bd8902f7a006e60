"""C24 light grid: grids made by the real light in random lit worlds, decoded and judged by LightGrid.tla"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread, lit

def check(c):
    exe = c.build("qbsp", "light")
    rng = c.rng
    jobs = []
    for i in range(c.n(100, 1500)):
        game = rng.choice(list(lit.GAMES))
        q2 = game in ("q2", "qbism")
        kinds = (["solid", "solid", "detail"] if q2 else lit.ROOM + ["water", "lava"]) + (["sky"] if rng.random() < 0.3 else [])
        m, lights = lit.gen(rng, kinds, game)
        if not m or not lights:
            continue
        hints = []
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 2, 2, 3])):
                p = [rng.randrange(m.palette[a][0] - 10, m.palette[a][-1] + 11) for a in range(3)]
                m.ents.append(("info_null", p, {"_lightgrid_hint": "1"}))
                hints.append(p)
        ext = [m.palette[a][-1] - m.palette[a][0] for a in range(3)]
        dist = [rng.choice([8, 12, 16, 24, 32, 20, 9]) for _ in range(3)]
        while (ext[0] // dist[0] + 1) * (ext[1] // dist[1] + 1) * (ext[2] // dist[2] + 1) > c.n(1400, 4000):
            k = rng.randrange(3)
            dist[k] += rng.choice([1, 4, 8])
        r10, s10 = rng.choice([5, 5, 10, 8]), rng.choice([10, 10, 5, 20])
        qargs = lit.GAMES[game] + rng.choice([[], [], ["-nofill"], ["-nodetail"], ["-maxnodesize", "64"]])
        largs = ["-lightgrid", "-lightgrid_dist"] + [str(x) for x in dist] + ["-threads", str(rng.choice([1, 2, 8]))]
        if rng.random() < 0.3:
            largs += ["-lightgrid_format", "octree"]
        if q2:
            largs += ["-bounce", "0"]
        if r10 != (10 if q2 else 5):
            largs += ["-range", "%g" % (r10 / 10)]
        if s10 != 10:
            largs += ["-dist", "%g" % (s10 / 10)]
        largs += rng.choice([[], [], ["-extra"], ["-novanilla"], ["-bspxlit"], ["-lit"], ["-visapprox", "none"]])
        jobs.append((i, m, lights, hints, dist, r10, s10, game, qargs, largs))
    def go(j):
        i, m, lights, hints, dist, r10, s10, game, qargs, largs = j
        d = c.dir("%d" % i)
        with open(os.path.join(d, "t.wad"), "wb") as f:
            f.write(mapgen.wad2(mapgen.texnames(m), palette=game == "hl"))
        m.world["wad"] = "t.wad"
        try:
            r = compiler.compile_map(exe["qbsp"], m, d, args=qargs)
            if r.bsp is None:
                return j, None, None, "qbsp: " + r.log[-600:]
            before = r.bsp
            rc, log = lit.relight(exe["light"], r.bsp_path, largs, cwd=d)
            if rc:
                return j, None, None, "light %d: %s" % (rc, log[-1500:])
            b = bspread.read(r.bsp_path)
            if "LIGHTGRID_OCTREE" not in b.bspx:
                return j, None, None, "no LIGHTGRID_OCTREE lump: " + log[-600:]
            return j, b, lit.octree(b.bspx["LIGHTGRID_OCTREE"]), None
        except bspread.BadBSP as e:
            return j, None, None, str(e)
    cases, meta = [], []
    for j, b, g, err in vlib.pmap(go, jobs):
        i, m, lights, hints, dist, r10, s10, game, qargs, largs = j
        files = [os.path.join(c.scratch, str(i), x) for x in ("m.map", "m.bsp")]
        what = "C24 map %d, qbsp %s, light %s" % (i, " ".join(qargs), " ".join(largs))
        if err:
            c.violation("%s: %s" % (what, err), files)
            continue
        shadows = [True] + [bool(x[2]) for x in m.bmodels]
        try:
            fs = lit.faces(b, shadows)
            mf = b.models[0]
            pts = [list(map(round, b.vertexes[v])) for k in range(mf["firstface"], mf["firstface"] + mf["numfaces"]) for v in bspread.face_verts(b, b.faces[k])]
            t = lit.tree(b)
        except bspread.BadBSP as e:
            c.violation("%s: %s" % (what, e), files)
            continue
        if hints and all(min(p[a] for p in hints) < max(p[a] for p in hints) for a in range(3)):
            pts = hints
        pts = sorted(set(map(tuple, pts)))
        c.count("maps")
        c.count("lattice_points", g["size"][0] * g["size"][1] * g["size"][2])
        c.count("octree_nodes", len(g["nodes"]))
        c.count("occluded_subtrees", sum(r["k"] == "occ" for n in g["nodes"] for r in n["c"]))
        if g["nodes"]:
            c.sample({"size": g["size"], "nodes": len(g["nodes"]), "leafs": len(g["leafs"]), "lights": len(lights)})
        cases.append(dict(grid=g, tree=t, faces=[f for f in fs if f["b"]], lights=lights, points=[list(p) for p in pts], dist=dist, range10=r10, s10=s10,
                          size3=-(-(max(p[2] for p in pts) - min(p[2] for p in pts)) // dist[2])))
        meta.append((what, files))
    bad = vlib.tlc_cases(c, "LightGrid", ["Header", "Structure", "Points"], cases,
                         weight=lambda d: 20 + d["grid"]["size"][0] * d["grid"]["size"][1] * d["grid"]["size"][2] * (5 + len(d["lights"]) * len(d["faces"])) / 50)
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-1500:]), meta[k][1], data=cases[k])
    c.assumptions += ["axis-aligned worlds with whole coordinates; lines of sight that come within 1/8 unit of an edge may go either way",
                      "python reader tools/lit.py decodes the lump"]

if __name__ == "__main__":
    vlib.main(check, "C24")
