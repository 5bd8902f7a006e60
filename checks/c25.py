"""C25 Quake II brushes, leaf lists and areas: random box worlds through the real qbsp, judged cell by cell by Areas.tla"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread
from c05 import Q2

INV = ["Brushes", "LeafContents", "LeafBrushes", "Touches", "Separated", "Joined", "Within", "Leaked", "NoArea"]
mapgen.KINDS["aportal"] = ("trigger", "func_areaportal")
KINDSETS = [["solid", "aportal"], ["solid", "aportal", "detail"], ["solid", "water", "aportal", "fence"], ["solid", "detail", "water", "slime", "lava", "twater", "glass", "fence"],
            ["solid", "sky", "aportal", "water", "detail", "fence", "twater"], ["solid", "aportal", "lava", "glass"]]

def overlap(a, b):
    return all(a.lo[k] < b.hi[k] and b.lo[k] < a.hi[k] for k in range(3))

def dress(rng, m, brushes, tid):
    """contents, flags and textures of the brushes"""
    for b in brushes:
        k = getattr(b, "kind2", b.kind)
        b.attrs = "0 0 0" if k == "aportal" else rng.choice(Q2[k])
        if k != "aportal":
            tid[0] += 1
            b.texs = ["t%d/s%d" % (tid[0], s) for s in range(6)]

def partition(rng, m):
    """a wall across the map with an areaportal in its hole (or, now and then, beside it)"""
    lo = [min(b.lo[a] for b in m.brushes) for a in range(3)]
    hi = [max(b.hi[a] for b in m.brushes) for a in range(3)]
    planes = [sorted({v for b in m.brushes for v in (b.lo[a], b.hi[a])}) for a in range(3)]
    def span(a):
        if rng.random() < 0.7 and len(planes[a]) >= 4:
            i = rng.randrange(1, len(planes[a]) - 2)
            return planes[a][i], planes[a][rng.randrange(i + 1, len(planes[a]) - 1)]
        x = rng.randrange(lo[a] + 8, hi[a] - 16, 8)
        return x, x + 8
    if any(hi[a] - lo[a] < 40 for a in range(3)):
        return
    a = rng.randrange(3)
    u, v = [x for x in range(3) if x != a]
    w, hu, hv = span(a), span(u), span(v)
    if w[1] - w[0] > 64:
        w = (w[0], w[0] + 16)
    for ru, rv in (((lo[u], hu[0]), (lo[v], hi[v])), ((hu[1], hi[u]), (lo[v], hi[v])), (hu, (lo[v], hv[0])), (hu, (hv[1], hi[v]))):
        l, h = [0] * 3, [0] * 3
        l[a], h[a] = w
        l[u], h[u] = ru
        l[v], h[v] = rv
        m.brushes.append(mapgen.Brush(tuple(l), tuple(h), "solid"))
    l, h = [0] * 3, [0] * 3
    l[a], h[a] = w
    l[u], h[u] = hu
    l[v], h[v] = hv
    if rng.random() < 0.3:  # not all of the thickness, or more than the hole
        l[rng.randrange(3)] -= 8
    if rng.random() < 0.2 and w[1] - w[0] > 8:
        h[a] -= 8
    m.brushes.insert(0, mapgen.Brush(tuple(l), tuple(h), "aportal"))

def make(rng, kinds):
    kk = [k if k in mapgen.KINDS else "water" for k in kinds]
    m = mapgen.gen(rng, kk, leak=0.02, cells=rng.choice([(4, 4, 3), (6, 4, 4), (6, 6, 3)]), nbrush=rng.choice([(1, 5), (3, 10)]), noent=0.03,
                   style=rng.choice(["tworooms", "tworooms", "lattice", "shell", "shell"]))
    for b in m.brushes:
        if b.kind == "water":
            b.kind2 = rng.choice([k for k in kinds if k not in mapgen.KINDS] + ["water"])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        partition(rng, m)
    keep, aps = [], []
    for b in m.brushes:
        if b.kind == "aportal":
            if any(overlap(b, x) for x in aps):
                continue
            b.group = 1000 + len(aps)
            aps.append(b)
            b.ap = len(aps)
        keep.append(b)
    m.brushes = keep
    if rng.random() < 0.4:
        compiler.add_bmodels(rng, m, rng.randrange(1, 3))
        for _, bs, _ in m.bmodels:
            for b in bs:
                if b.kind == "clip":
                    b.kind = "detail"
                    b.texs = ["x"] * 6
    tid = [0]
    dress(rng, m, m.brushes + [b for _, bs, _ in m.bmodels for b in bs], tid)
    # brushes of one model must not be detail by entity: only by their contents
    for _, bs, _ in m.bmodels:
        for b in bs:
            if b.kind == "detail":
                b.attrs = "134217729 0 0"
    m.naps = len(aps)
    return m

def bits(n):
    return [i for i in range(32) if (n & 0xffffffff) >> i & 1]

def brush(b):
    con, surf, _ = b.attrs.split()
    return dict(con=bits(int(con)), surf=bits(int(surf)), ap=getattr(b, "ap", 0), tex=list(b.texs))

def exported(b, first, num, contents):
    """a box from its planes, with the texture of the sides -x +x -y +y -z +z"""
    lo, hi, tex = [None] * 3, [None] * 3, [""] * 6
    for s in range(first, first + num):
        plane, ti = b.brushsides[s]
        (n, d, _) = b.planes[plane]
        ax = [a for a in range(3) if abs(abs(n[a]) - 1) < 1e-6]
        if len(ax) != 1 or abs(d - round(d)) > 1e-3:
            raise bspread.BadBSP("brush side on plane %r %r" % (n, d))
        a = ax[0]
        p = n[a] > 0
        v = int(round(d)) * (1 if p else -1)
        if (hi if p else lo)[a] is not None:
            raise bspread.BadBSP("brush with two sides facing one way")
        (hi if p else lo)[a] = v
        t = b.texinfo[ti]["tex"]
        tex[2 * a + (1 if p else 0)] = t
    if None in lo + hi:
        raise bspread.BadBSP("open brush %r %r" % (lo, hi))
    return dict(lo=lo, hi=hi, con=bits(contents), tex=tex)

def record(m, r):
    b = r.bsp
    bsp = [exported(b, x["first"], x["num"], x["contents"]) for x in b.brushes]
    common = dict(bsp=bsp, leafcon=[bits(l["contents"]) for l in b.leafs], leafarea=[l["area"] for l in b.leafs],
                  lists=[[b.leafbrushes[l["firstb"] + k] + 1 for k in range(l["numb"])] for l in b.leafs],
                  areas=[list(x) for x in b.areas], aps=[list(x) for x in b.areaportals])
    ents = re.findall(r'\{[^{}]*\}', b.entities)
    styles = []
    for e in ents:
        kv = dict(re.findall(r'"([^"]*)" "([^"]*)"', e))
        if kv.get("classname") == "func_areaportal":
            styles.append(int(kv.get("style", "0")))
    out = []
    d = compiler.box_case(m, r, "q2", 0, False, model=0, styles=styles, naps=m.naps, **common)
    src = m.brushes + [x for _, bs, _ in m.bmodels for x in bs]
    d["all"] = [dict(lo=list(x.lo), hi=list(x.hi), k=x.kind, **brush(x)) for x in src]
    for x, y in zip(d["brushes"], m.brushes):
        x.update(brush(y))
        x["k"] = {"sky": "solid"}.get(getattr(y, "kind2", y.kind), getattr(y, "kind2", y.kind))
    out.append(d)
    for k, (_, bs, _) in enumerate(m.bmodels):
        e = dict(brushes=[dict(lo=list(x.lo), hi=list(x.hi), k="fence", **brush(x)) for x in bs], ents=[], game="q2", opts={"nofill": True},
                 tree=compiler.draw_tree(b, k + 1), hulls=[], leaked=False, model=k + 1, styles=[], all=[], naps=0, **common)
        out.append(e)
    return out

def check(c):
    exe = c.build("qbsp")["qbsp"]
    rng = c.rng
    jobs = []
    for i in range(c.n(600, 8000)):
        kinds = rng.choice(KINDSETS)
        m = make(rng, kinds)
        args = [rng.choice(["-q2bsp", "-q2bsp", "-qbism"])] + rng.choice([[]] * 10 + [x for x in compiler.NEUTRAL if x not in (["-notranswater"], ["-forceprt1"], ["-notex"])])
        args += rng.choice([[]] * 12 + [x for x in compiler.SEMANTIC if "detail" not in x[0] or "fill" in x[0]])
        jobs.append((i, m, args))
    def go(j):
        i, m, args = j
        try:
            r = compiler.compile_map(exe, m, c.dir("%d" % i), args=args, threads=1 + i % 3)
            if r.bsp is None:
                return j, None, "qbsp failed: %s" % r.log[-600:]
            return j, record(m, r), None
        except (bspread.BadBSP, IndexError, KeyError, ValueError) as e:
            return j, None, repr(e)
    cases, meta = [], []
    for (i, m, args), ds, err in vlib.pmap(go, jobs):
        mp = os.path.join(c.scratch, str(i), "m.map")
        what = "C25 qbsp %s on map %d" % (" ".join(args), i)
        if err:
            c.violation("%s: %s" % (what, err), [mp, mp[:-3] + "bsp"])
            continue
        c.count("maps")
        c.count("areaportals", m.naps)
        c.count("areas", max(0, len(ds[0]["areas"]) - 1))
        c.count("brushes", len(ds[0]["bsp"]))
        if len(ds[0]["areas"]) > 2:
            c.count("maps of several areas")
        if ds[0]["aps"][1:]:
            c.sample({"args": args, "areas": ds[0]["areas"], "areaportals": ds[0]["aps"]})
        for d in ds:
            cases.append(d)
            meta.append((what + (" model %d" % d["model"] if d["model"] else ""), mp))
    bad = vlib.tlc_cases(c, "Areas", INV, cases, consts="ALIAS AAlias\nCONSTANT Skip0 = FALSE\n", weight=lambda d: 5 + len(d["brushes"]) ** 2)
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-2500:]), [meta[k][1], meta[k][1][:-3] + "bsp"], data=cases[k])
    c.assumptions += ["worlds of axis-aligned boxes with integer coordinates; areaportals that do not overlap each other", "python reader tools/bspread.py decodes the BSP file",
                      "areaportals that touch more than two areas, or an area only through detail, are left open (the compiler warns)"]

if __name__ == "__main__":
    vlib.main(check, "C25")
