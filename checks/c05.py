"""C05 portal files: random box worlds through the real qbsp, every wall of the arrangement judged by Portals.tla"""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread

INV = ["WellFormed", "Header", "Numbered", "OneKind", "Openings"]
Q2 = {"solid": ["1 0 0", "0 0 0"], "sky": ["1 4 0", "0 4 0"], "water": ["32 0 0"], "slime": ["16 0 0"], "lava": ["8 0 0"], "twater": ["32 16 0", "8 32 0", "16 48 0"],
      "fence": ["2 16 0", "1 16 0", "64 0 0", "134217730 0 0"], "glass": ["2 0 0"], "detail": ["134217729 0 0", "134217728 0 0"]}
Q2K = {"sky": "solid"}

def lists(rest):
    out, cur = [], []
    for v in rest:
        if v == -1:
            out.append(cur)
            cur = []
        else:
            cur.append(v)
    if cur:
        raise bspread.BadBSP("unfinished list of leafs in the portal file")
    return out

def record(m, r, game, opts, prt, mapping):
    b = r.bsp
    if game == "q2":
        cl = [l["cluster"] for l in b.leafs]
        lst = []
    else:
        nv = b.models[0]["visleafs"]
        cl = [-1] * len(b.leafs)
        if mapping["kind"] == "PRT2":
            lst = lists(mapping["rest"])
            for k, l in enumerate(lst):
                for v in l:
                    if 0 <= v + 1 < len(cl):
                        cl[v + 1] = k
        else:
            lst = []
            for v in range(mapping["leafs"]):
                if v + 1 < len(cl):
                    cl[v + 1] = v
    cuts = [set(), set(), set()]
    ps = []
    for p in prt["portals"]:
        q = []
        for pt in p["pts"]:
            w = [int(round(x)) for x in pt]
            if max(abs(x - y) for x, y in zip(w, pt)) > 0.02:
                raise bspread.BadBSP("portal corner %r is no corner of a box" % (pt,))
            for a in range(3):
                cuts[a].add(w[a])
            q.append(w)
        ps.append(dict(a=p["a"], b=p["b"], pts=q))
    kw = dict(portals=ps, clusterof=cl, cuts=[sorted(x) for x in cuts], kind=mapping["kind"], leafs=mapping["leafs"], clusters=prt["clusters"],
              nportals=prt["nportals"], visleafs=mapping["leafs"] if game == "q2" else nv, lists=lst)
    d = compiler.box_case(m, r, "q2" if game == "q2" else "q1", 0, False, **kw)
    d["opts"].update(opts)
    if game == "q2":
        for x in d["brushes"]:
            x["k"] = Q2K.get(x["k"], x["k"])
    return d

def check(c):
    exe = c.build("qbsp")["qbsp"]
    rng = c.rng
    jobs = []
    for i in range(c.n(600, 8000)):
        game = rng.choice(["q1", "q1", "q1", "q1", "h2", "hl", "q2", "q2"])
        if game == "q2":
            kinds = rng.choice([["solid", "solid", "water", "lava", "detail"], ["solid", "sky", "water", "slime", "lava", "twater", "fence", "detail", "glass"], ["solid", "water", "lava", "slime"],
                                ["solid", "fence", "fence", "detail"], ["solid", "fence", "water", "twater", "glass", "lava"], ["solid", "fence", "water"]])
        else:
            kinds = rng.choice([compiler.ALLKINDS, ["solid", "water", "lava", "slime"], ["solid", "water", "detail", "fence"], ["solid", "water", "fence", "illus"], ["solid", "detail", "wall", "fence", "illus", "sky"]])
        kk = [k if k in mapgen.KINDS else "water" for k in kinds]
        m = mapgen.gen(rng, kk, leak=0, cells=rng.choice([(4, 4, 3), (5, 4, 4), (6, 6, 3)]), nbrush=rng.choice([(1, 5), (3, 10)]), noent=0.03)
        args = {"h2": ["-hexen2"], "hl": ["-hlbsp"], "q2": ["-q2bsp"], "q1": []}[game] + rng.choice([[]] * 10 + [x for x in compiler.NEUTRAL if x not in (["-notranswater"], ["-forceprt1"])])
        args += rng.choice([[]] * 12 + [x for x in compiler.SEMANTIC if game != "q2" or "detail" not in x[0] or "fill" in x[0]])
        opts = {}
        if game != "q2" and rng.random() < 0.45:
            args = args + ["-notranswater"]
            opts["notranswater"] = True
        if game == "q2":
            for b in m.brushes:
                if b.kind == "water" and "twater" in kinds:
                    b.kind2 = rng.choice(["water", "twater", "glass"])
                k = getattr(b, "kind2", b.kind)
                b.attrs = rng.choice(Q2[k])
        jobs.append((i, m, game, args, opts, game != "q2" and rng.random() < 0.15))
    def go(j):
        i, m, game, args, opts, force = j
        d = c.dir("%d" % i)
        try:
            r = compiler.compile_map(exe, m, d, args=args, threads=1 + i % 3)
            if r.bsp is None:
                return j, None, "qbsp failed: %s" % r.log[-600:]
            if not r.prt:
                return j, None, None
            mapping = prt = bspread.parse_prt(r.prt_path)
            prt["nportals"] = len(prt["portals"])
            if force:
                f = compiler.compile_map(exe, m, os.path.join(d, "f"), args=args + ["-forceprt1"], threads=2)
                prt = bspread.parse_prt(f.prt_path)
                prt["nportals"] = len(prt["portals"])
                if prt["kind"] != "PRT1" or prt["rest"]:
                    return j, None, "-forceprt1 did not write a PRT1 file"
            for b in m.brushes:
                b.kind = getattr(b, "kind2", b.kind)
            return j, record(m, r, game, opts, prt, mapping), None
        except (bspread.BadBSP, IndexError, KeyError, ValueError, StopIteration) as e:
            return j, None, repr(e)
    cases, meta = [], []
    for (i, m, game, args, opts, force), d, err in vlib.pmap(go, jobs):
        mp = os.path.join(c.scratch, str(i), "m.map")
        what = "C05 qbsp %s on map %d (%s)" % (" ".join(args), i, game)
        if err:
            c.violation("%s: %s" % (what, err), [mp, mp[:-3] + "prt"])
            continue
        c.count("maps")
        if d is None:
            c.count("maps_without_portals")
            continue
        c.count("portals", len(d["portals"]))
        c.count("clusters", d["clusters"])
        c.count("prt2", int(d["kind"] == "PRT2"))
        c.count("notranswater", int("notranswater" in opts))
        if d["portals"]:
            c.sample({"args": args, "portals": len(d["portals"]), "clusters": d["clusters"], "first": d["portals"][0]})
        cases.append(d)
        meta.append((what, mp))
    bad = vlib.tlc_cases(c, "Portals", INV, cases, consts="ALIAS PAlias\nCONSTANT Skip0 = FALSE\n", weight=lambda d: 5 + len(d["portals"]) + len(d["brushes"]) ** 2)
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-2500:]), [meta[k][1], meta[k][1][:-3] + "bsp", meta[k][1][:-3] + "prt"], data=cases[k])
    c.assumptions += ["worlds of axis-aligned boxes with integer coordinates", "python reader tools/bspread.py decodes the BSP and portal files",
                      "walls between overlapping liquids and between a liquid and a cluster that may contain detail are only required not to be covered twice"]

if __name__ == "__main__":
    vlib.main(check, "C05")
