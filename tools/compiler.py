"""Runs the real qbsp on generated maps and turns what it wrote into cases for the specification."""
import os, shutil
import bspread, mapgen
from vlib import run, CheckError

S = 1
Q1C = {-1: "EMPTY", -2: "SOLID", -3: "WATER", -4: "SLIME", -5: "LAVA", -6: "SKY"}

def tree_nodes(b, nodes):
    out = []
    for n in nodes:
        if not 0 <= n["plane"] < len(b.planes):
            raise bspread.BadBSP("node refers to plane %d of %d" % (n["plane"], len(b.planes)))
        (x, y, z), d, t = b.planes[n["plane"]]
        ch = n["ch"]
        a = None
        for i, v in enumerate((x, y, z)):
            if abs(abs(v) - 1) < 1e-6:
                a, sgn = i, (1 if v > 0 else -1)
        if a is not None and abs(d - round(d)) < 1e-3:
            dd = int(round(d)) * sgn
            c = list(ch) if sgn > 0 else [ch[1], ch[0]]
            out.append(dict(a=a, d=dd, c=c, n=[]))
        elif a is not None:
            out.append(dict(a=3, d=int(round(d * 1024)), n=[int(round(v * 1024)) for v in (x, y, z)], c=list(ch)))
        else:
            out.append(dict(a=3, d=int(round(d * 1024)), n=[int(round(v * 1024)) for v in (x, y, z)], c=list(ch)))
    return out

def sub_tree(nodes, head):
    """renumber the nodes reachable from head"""
    order, num, stack = [], {}, [head]
    while stack:
        n = stack.pop()
        if n < 0 or n in num:
            continue
        if n >= len(nodes):
            raise bspread.BadBSP("child node %d of %d" % (n, len(nodes)))
        num[n] = len(order)
        order.append(n)
        stack += nodes[n]["c"]
    out = []
    for n in order:
        d = dict(nodes[n])
        d["c"] = [num[c] if c >= 0 else c for c in d["c"]]
        out.append(d)
    return out, (num[head] if head >= 0 else head)

def contents(b, v):
    if b.q2:
        return v
    return Q1C.get(v, "?%d" % v)

def draw_tree(b, model=0):
    nodes = tree_nodes(b, b.nodes)
    head = b.models[model]["head"][0]
    nd, head = sub_tree(nodes, head)
    # leaf numbers: child -1-i is leaf i ; the specification writes leaf i as -(i+1)
    return dict(nodes=nd, head=head, leafs=[contents(b, l["contents"]) for l in b.leafs])

def clip_tree(b, hull, model=0):
    nodes = tree_nodes(b, b.clipnodes)
    head = b.models[model]["head"][hull]
    # clipnode children are contents when negative: leaf k is contents -k
    try:
        nd, hd = sub_tree(nodes, head)
    except bspread.BadBSP:
        raise
    return dict(nodes=nd, head=hd, leafs=[Q1C[-k] for k in range(1, 7)])

class Result:
    pass

def compile_map(exe, m, d, name="m", args=(), timeout=60, threads=1):
    """compile; returns paths, log, and the parsed bsp (None when there is none)"""
    os.makedirs(d, exist_ok=True)
    r = Result()
    r.dir = d
    r.map = os.path.join(d, name + ".map")
    r.bsp_path = os.path.join(d, name + ".bsp")
    if isinstance(m, str):
        with open(r.map, "w") as f:
            f.write(m)
    else:
        m.write(r.map)
    r.args = list(args)
    r.rc, r.log = run([exe, "-nopercent", "-threads", str(threads)] + r.args + [r.map, r.bsp_path], timeout=timeout, cwd=d)
    r.bsp = None
    if r.rc == 0 and os.path.exists(r.bsp_path):
        r.bsp = bspread.read(r.bsp_path)
    r.leaked = "Reached occupant" in r.log
    r.prt = os.path.exists(os.path.join(d, name + ".prt"))
    r.prt_path = os.path.join(d, name + ".prt")
    r.pts_path = os.path.join(d, name + ".pts")
    r.pts = os.path.exists(r.pts_path)
    return r

# ---------------------------------------------------------------------------------------------
# worlds for the VoxelWorld specification
GAMES = {  # game name -> (qbsp arguments, hulls, BSP kinds)
    "q1": ([], 2), "h2": (["-hexen2"], 5), "hl": (["-hlbsp"], 3),
}
ALLKINDS = ["solid", "solid", "water", "slime", "lava", "sky", "clip", "detail", "fence", "wall", "illus", "hint"]

def opts_of(args):
    o = {}
    for a in ("-nofill", "-nodetail", "-omitdetail", "-omitdetailwall", "-omitdetailillusionary", "-omitdetailfence"):
        if a in args:
            o[a[1:]] = True
    if "-filltype" in args and args[args.index("-filltype") + 1] == "outside":
        o["outside"] = True
    if "-filldetail" in args and args[args.index("-filldetail") + 1] == "0":
        o["nofilldetail"] = True
    return o

# options that must not change what space contains
NEUTRAL = [["-forcegoodtree"], ["-chop"], ["-nochop"], ["-maxnodesize", "64"], ["-maxnodesize", "128"], ["-midsplitsurffraction", "1"],
           ["-midsplitsurffraction", "0.5"], ["-midsplitbrushfraction", "1"], ["-subdivide", "64"], ["-nosubdivide"], ["-nomerge"],
           ["-splitspecial"], ["-splitsky"], ["-splitturb"], ["-notranswater"], ["-notjunc"], ["-includeskip"], ["-notex"],
           ["-chop", "-chopfragment"], ["-noedgereuse"], ["-forceprt1"], ["-maxedges", "8"], ["-wrbrushes"], ["-nooldaxis"]]
SEMANTIC = [["-nofill"], ["-nodetail"], ["-omitdetail"], ["-omitdetailwall"], ["-omitdetailillusionary"], ["-omitdetailfence"],
            ["-filltype", "outside"], ["-filltype", "inside"], ["-filldetail", "0"]]

def box_case(m, r, game, nhulls, hulls=True, **kw):
    d = mapgen.describe(m)
    d.update(game=game, opts=opts_of(r.args), tree=draw_tree(r.bsp),
             hulls=[clip_tree(r.bsp, k) for k in range(1, nhulls + 1)] if hulls else [], leaked=r.leaked)
    d.update(kw)
    return d

def model_case(m, r, game, nhulls, model, brushes, hulls=True):
    """a brush entity: its own little world, in which nothing is filled"""
    d = {"brushes": [{"lo": list(b.lo), "hi": list(b.hi), "k": "clip" if b.kind == "clip" else "fence"} for b in brushes], "ents": []}
    d.update(game=game, opts={"nofill": True}, tree=draw_tree(r.bsp, model),
             hulls=[clip_tree(r.bsp, k, model) for k in range(1, nhulls + 1)] if hulls else [], leaked=False)
    return d

def add_bmodels(rng, m, n):
    for _ in range(n):
        bs = []
        for _ in range(rng.randrange(1, 4)):
            lo, hi = [], []
            for a in range(3):
                i = rng.randrange(0, len(m.palette[a]) - 1)
                j = rng.randrange(i + 1, min(len(m.palette[a]) - 1, i + 2) + 1)
                lo.append(m.palette[a][i])
                hi.append(m.palette[a][j])
            bs.append(mapgen.Brush(lo, hi, rng.choice(["solid", "solid", "water", "clip", "lava"])))
        if all(b.kind == "clip" for b in bs):
            bs[0] = mapgen.Brush(bs[0].lo, bs[0].hi, "solid")
        m.bmodels.append((rng.choice(["func_wall", "func_door", "func_illusionary", "func_train", "trigger_multiple"]), bs, {}))

# ---------------------------------------------------------------------------------------------
# faces
AXES = {0: (1, 2), 1: (0, 2), 2: (0, 1)}

def quake_vecs(axis, tp):
    """texture axes of an axis-aligned side by the Quake projection; tp = (offset s, offset t, scale s, scale t)"""
    s, t = {0: (1, 2), 1: (0, 2), 2: (0, 1)}[axis]
    v = [[0, 0, 0, tp[0]], [0, 0, 0, tp[1]]]
    v[0][s] = 1.0 / tp[2]
    v[1][t] = -1.0 / tp[3]
    return [int(round(x * 64)) for r in v for x in r]

def face_records(b, model):
    """the model's faces in the form the specification reads; raises BadBSP for what no integer world can contain"""
    out = []
    m = b.models[model]
    for k in range(m["firstface"], m["firstface"] + m["numfaces"]):
        f = b.faces[k]
        (x, y, z), d, t = b.planes[f["plane"]]
        n = [x, y, z]
        if f["side"]:
            n = [-x, -y, -z]
            d = -d
        ax = [i for i in range(3) if abs(abs(n[i]) - 1) < 1e-6]
        if len(ax) != 1:
            raise bspread.BadBSP("face %d on a plane that is no brush side: %r" % (k, n))
        a = ax[0]
        s = 1 if n[a] > 0 else -1
        vs = []
        for vi in bspread.face_verts(b, f):
            p = b.vertexes[vi]
            if abs(p[a] - d * s) > 0.01:
                raise bspread.BadBSP("vertex %r of face %d off its plane" % (p, k))
            q = [int(round(v)) for v in p]
            if max(abs(q[i] - p[i]) for i in range(3)) > 0.01:
                raise bspread.BadBSP("vertex %r of face %d is no corner" % (p, k))
            vs.append([q[AXES[a][0]], q[AXES[a][1]]])
        ti = b.texinfo[f["texinfo"]]
        out.append(dict(a=a, d=int(round(d * s)), s=s, v=vs, t=ti["tex"], vec=[int(round(v * 64)) for v in ti["vecs"]]))
    return out

def face_cuts(fs):
    c = [set(), set(), set()]
    for f in fs:
        o = AXES[f["a"]]
        for v in f["v"]:
            c[o[0]].add(v[0])
            c[o[1]].add(v[1])
    return [sorted(x) for x in c]

def leaf_marks(b, model, nleafs_first):
    """faces (1-based in the model's face list) listed by each leaf"""
    m = b.models[model]
    out = []
    for l in b.leafs:
        out.append([b.marks[l["first"] + i] - m["firstface"] + 1 for i in range(l["num"])])
    return out
