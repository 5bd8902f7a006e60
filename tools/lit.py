"""Lit box worlds: random maps with lights, compiled by the real qbsp and lit by the real light, as the specification reads them."""
import os, struct
import mapgen, compiler, bspread
from vlib import run

GAMES = {"q1": [], "h2": ["-hexen2"], "hl": ["-hlbsp"], "bsp2": ["-bsp2"], "q2": ["-q2bsp"], "qbism": ["-qbism"]}
ROOM = ["solid", "solid", "detail", "solid", "fence", "wall"]

def free(m, p, gap):
    """p is at least gap away from every brush"""
    bs = m.brushes + [x for _, l, _ in m.bmodels for x in l]
    for b in bs:
        if all(b.lo[a] - gap < p[a] < b.hi[a] + gap for a in range(3)):
            return False
    return True

def place(rng, m, gap=3, tries=60):
    P = m.palette
    for _ in range(tries):
        p = [rng.randrange(P[a][1] + 2, P[a][-2] - 1) for a in range(3)]
        if free(m, p, gap):
            return p
    return None

def light(rng, m, styles):
    p = place(rng, m)
    if not p:
        return None
    L = dict(o=p, v=rng.choice([40, 100, 150, 200, 300, rng.randrange(10, 301)]), w10=rng.choice([10, 10, 10, 5, 20, 30]),
             f=rng.choice([0, 0, 0, 1, 2, 3, 3, 5]), st=rng.choice(styles), c=[255, 255, 255], a10=rng.choice([5, 0, 10, 5]), fall=0)
    if rng.random() < 0.5:
        L["c"] = [rng.choice([255, 128, 0, rng.randrange(256)]) for _ in range(3)]
        if max(L["c"]) < 60:
            L["c"][rng.randrange(3)] = 255
    if L["f"] == 0 and rng.random() < 0.25:
        L["fall"] = rng.randrange(40, 400)
    if rng.random() < 0.12:
        L["v"] = -L["v"]
    k = {"light": str(L["v"])}
    if L["w10"] != 10 or rng.random() < 0.2:
        k["wait"] = "%g" % (L["w10"] / 10)
    if L["f"] or rng.random() < 0.2:
        k["delay"] = str(L["f"])
    if L["st"]:
        k["style"] = str(L["st"])
    if L["c"] != [255, 255, 255] or rng.random() < 0.2:
        k["_color"] = "%d %d %d" % tuple(L["c"])
    if L["a10"] != 5 or rng.random() < 0.2:
        k["_anglescale"] = "%g" % (L["a10"] / 10)
    if L["fall"]:
        k["_falloff"] = str(L["fall"])
    m.ents.append(("light", p, k))
    L["neg"] = L["v"] < 0
    L["off"] = False
    if rng.random() < 0.06:
        m.ents[-1][2]["_nostaticlight"] = "1"
        L["off"] = True
    return L

def gen(rng, kinds=None, game="q1"):
    m = mapgen.gen(rng, kinds or ROOM, leak=0, cells=rng.choice([(4, 4, 3), (5, 4, 3), (4, 4, 4)]), nbrush=(1, 7), scale=(16, 72), noent=0,
                   style=rng.choice(["shell", "shell", "tworooms", "lattice"]), nents=(1, 1))
    m.ents = []
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 3)):
            lo, hi = [], []
            for a in range(3):
                i = rng.randrange(1, len(m.palette[a]) - 2)
                lo.append(m.palette[a][i] + rng.randrange(0, 5))
                hi.append(m.palette[a][i + 1] - rng.randrange(0, 5))
            sh = rng.random() < 0.5
            m.bmodels.append((rng.choice(["func_wall", "func_door", "func_train"]), [mapgen.Brush(lo, hi, "solid")], {"_shadow": "1"} if sh else {}))
    styles = rng.choice([[0], [0, 3], [0, 1, 5], [0, 2, 7, 9], [0, 1, 2, 3, 4, 5, 6]])
    lights = []
    p = place(rng, m)
    if not p:
        return None, None
    m.ents.append(("info_player_start", p, {}))
    for _ in range(8 if len(styles) > 5 else rng.choice([1, 2, 3, 4, 6, 8])):
        L = light(rng, m, styles)
        if L:
            lights.append(L)
    return m, lights

def faces(b, shadows):
    """faces as rectangles; shadows[model] tells whether the model's faces stop light"""
    out = []
    for mi in range(len(b.models)):
        for f in compiler.face_records(b, mi):
            us = [v[0] for v in f["v"]]
            vs = [v[1] for v in f["v"]]
            if any(v[0] not in (min(us), max(us)) and v[1] not in (min(vs), max(vs)) for v in f["v"]):
                raise bspread.BadBSP("face that is no rectangle")
            out.append(dict(a=f["a"], d=f["d"], s=f["s"], lo=[min(us), min(vs)], hi=[max(us), max(vs)], t=f["t"] or "",
                            b=bool(shadows[mi]) and not (f["t"] or "").startswith("*"), m=mi))
    return out

def octree(buf):
    """LIGHTGRID_OCTREE in the form the specification reads"""
    o = [0]
    def get(fmt):
        s = struct.Struct("<" + fmt)
        if o[0] + s.size > len(buf):
            raise bspread.BadBSP("the lump ends within its data")
        v = s.unpack_from(buf, o[0])
        o[0] += s.size
        return v
    def ref(x):
        if x & (1 << 30):
            return dict(k="occ", n=0)
        return dict(k="leaf" if x >> 31 else "node", n=min(x & 0x3fffffff, 10 ** 9))
    def whole(v):
        if any(abs(x - round(x)) > 1e-3 or abs(x) > 1e6 for x in v):
            raise bspread.BadBSP("grid numbers %r" % (v,))
        return [int(round(x)) for x in v]
    g = dict(dist=whole(get("3f")), size=list(get("3i")), mins=whole(get("3f")))
    g["nst"] = get("B")[0]
    g["root"] = ref(get("I")[0])
    n = get("I")[0]
    if n > 100000:
        raise bspread.BadBSP("%d nodes" % n)
    g["nodes"] = []
    for _ in range(n):
        m = get("3i")
        g["nodes"].append(dict(m=list(m), c=[ref(x) for x in get("8I")]))
    n = get("I")[0]
    if n > 100000:
        raise bspread.BadBSP("%d leafs" % n)
    g["leafs"] = []
    for _ in range(n):
        m, s = get("3i"), get("3i")
        k = s[0] * s[1] * s[2]
        if min(s) < 1 or k > 1000000:
            raise bspread.BadBSP("leaf of size %r" % (s,))
        pts = []
        for _ in range(k):
            t = get("B")[0]
            if t == 255:
                pts.append([-1])
            elif t > 4:
                raise bspread.BadBSP("%d styles" % t)
            else:
                pts.append([x for _ in range(t) for x in get("4B")])
        g["leafs"].append(dict(m=list(m), s=list(s), p=pts))
    if o[0] != len(buf):
        raise bspread.BadBSP("%d bytes behind the last leaf" % (len(buf) - o[0]))
    return g

def tree(b):
    t = compiler.draw_tree(b)
    t["solid"] = [bool(l["contents"] & 1) if b.q2 else l["contents"] in (-2, -6) for l in b.leafs]
    del t["leafs"]
    for n in t["nodes"]:
        if n["a"] == 3:
            raise bspread.BadBSP("node on a plane that is no brush side")
        del n["n"]
    return t

def relight(exe, path, args, timeout=60, cwd=None):
    return run([exe, "-nopercent"] + list(args) + [path], timeout=timeout, cwd=cwd)
