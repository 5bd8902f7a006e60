"""C20 decompilation: real `bsputil --decompile*` runs on compiled and on made-up BSPs, the maps written read by an independent
parser and recompiled by the real qbsp, judged by DecompileTrace.tla"""
import sys, os, math, struct, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread, bspfmt

class Bad(Exception):
    pass

def det3(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))

def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

def dot(a, b):
    return sum(x * y for x, y in zip(a, b))

ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
# integer maps of the lattice into the world: rows are world coordinates
SLOPES = [[[4, -3, 0], [3, 4, 0], [0, 0, 5]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
          [[1, 0, 1], [0, 1, 1], [0, 0, 1]], [[2, 1, 1], [-1, 2, 0], [0, -1, 2]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]]]
ORTHO = SLOPES[:2] + SLOPES[5:]

def to_world(M, q):
    return [sum(M[i][j] * q[j] for j in range(3)) for i in range(3)]

def lattice(M, n, d):
    """a world plane in lattice coordinates: (axis, coordinate, sign), or None when it is none of the lattice's"""
    v = [sum(M[i][j] * n[i] for i in range(3)) for j in range(3)]
    k = max(range(3), key=lambda i: abs(v[i]))
    if any(abs(v[i]) > 2e-3 * abs(v[k]) for i in range(3) if i != k):
        return None
    x = d / v[k]
    if abs(x - round(x)) > 0.02:
        return None
    return k, int(round(x)), 1 if v[k] > 0 else -1

# ---------------------------------------------------------------- reading the map
def tokens(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in " \t\r\n":
            i += 1
        elif c == '"':
            j = text.index('"', i + 1)
            while text[j - 1] == "\\" and text[j - 2] != "\\":
                j = text.index('"', j + 1)
            out.append(('"', text[i + 1:j]))
            i = j + 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        else:
            j = i
            while j < n and text[j] not in " \t\r\n":
                j += 1
            out.append(("w", text[i:j]))
            i = j
    return out

def read_map(path):
    t = tokens(open(path, encoding="latin1").read())
    ents, i = [], 0
    def word(w):
        nonlocal i
        if i >= len(t) or t[i] != ("w", w):
            raise Bad("expected %s, found %r" % (w, t[i:i + 3]))
        i += 1
    def num():
        nonlocal i
        i += 1
        return float(t[i - 1][1])
    while i < len(t):
        word("{")
        e = {"keys": [], "brushes": []}
        while t[i] != ("w", "}"):
            if t[i][0] == '"':
                if t[i + 1][0] != '"':
                    raise Bad("value of %r" % (t[i],))
                e["keys"].append([t[i][1], t[i + 1][1]])
                i += 2
                continue
            word("{")
            b = []
            while t[i] != ("w", "}"):
                p = []
                for _ in range(3):
                    word("(")
                    p.append([num(), num(), num()])
                    word(")")
                name = t[i][1]
                i += 1
                ax = []
                for _ in range(2):
                    word("[")
                    ax.append([num(), num(), num(), num()])
                    word("]")
                num()
                sc = [num(), num()]
                info = []
                while t[i][0] == "w" and t[i][1] not in ("(", "}"):
                    info.append(int(t[i][1]))
                    i += 1
                if len(info) not in (0, 3):
                    raise Bad("surface info %r" % info)
                n = cross([x - y for x, y in zip(p[0], p[1])], [x - y for x, y in zip(p[2], p[1])])
                l = math.sqrt(dot(n, n))
                if not l > 0:
                    raise Bad("a side without a plane: %r" % p)
                n = [x / l for x in n]
                if any(s == 0 for s in sc):
                    vecs = None
                else:
                    vecs = [[ax[k][0] / sc[k], ax[k][1] / sc[k], ax[k][2] / sc[k], ax[k][3]] for k in range(2)]
                b.append(dict(n=n, d=dot(n, p[1]), t=name, vecs=vecs, info=info))
            i += 1
            e["brushes"].append(b)
        i += 1
        ents.append(e)
    return ents

def parse_ents(text):
    """entity text of the BSP: keys and values as written"""
    t = tokens(text)
    out, i = [], 0
    while i < len(t):
        if t[i] != ("w", "{"):
            raise Bad("entity text")
        i += 1
        e = []
        while t[i] != ("w", "}"):
            e.append([t[i][1], t[i + 1][1]])
            i += 2
        i += 1
        out.append(e)
    return out

def brush_box(sides, M, off, bounds, wb, extra):
    """the box a written brush is in the lattice; what stands on its sides"""
    lo, hi = list(bounds["lo"]), list(bounds["hi"])
    best = {}
    tex = [{"t": "", "vec": [0] * 8} for _ in range(6)]
    seen = [0] * 6
    for s in sides:
        d = s["d"] - dot(s["n"], off)
        # a side of the box the model is in
        r = lattice(M, s["n"], d)
        if r is None:
            k = max(range(3), key=lambda i: abs(s["n"][i]))
            if abs(abs(s["n"][k]) - 1) < 1e-6 and any(abs(d * (1 if s["n"][k] > 0 else -1) - b[k]) < 0.02 for b in wb):
                continue
            raise Bad("side %r %r is on no plane of the tree" % (s["n"], d))
        a, x, sg = r
        k = max(range(3), key=lambda i: abs(s["n"][i]))
        if M != ID and x not in extra[a] and abs(abs(s["n"][k]) - 1) < 1e-6 and any(abs(d * (1 if s["n"][k] > 0 else -1) - b[k]) < 0.02 for b in wb):
            continue
        if x not in extra[a] and not (M == ID and any(abs(x - b[a]) < 0.02 for b in wb)):
            raise Bad("side on axis %d at %d is on no plane of the tree" % (a, x))
        k = 2 * a + (1 if sg > 0 else 0)
        if not seen[k] or (x < best[k] if sg > 0 else x > best[k]):
            best[k] = x
            vec = [10 ** 6] * 8
            if s["vecs"]:
                vec = []
                for v in s["vecs"]:
                    vec += [int(round(y * 256)) for y in v[:3]] + [int(round((v[3] + dot(v[:3], off)) * 16))]
            tex[k] = {"t": s["t"], "vec": vec}
        seen[k] = 1
        if sg > 0:
            hi[a] = min(hi[a], x)
        else:
            lo[a] = max(lo[a], x)
    closed = all(seen) if M == ID else True
    return lo, hi, tex, closed

def texvec(v):
    return [int(round(y * 256)) for y in v[:3]] + [int(round(v[3] * 16))] + [int(round(y * 256)) for y in v[4:7]] + [int(round(v[7] * 16))]

def lat_nodes(b, nodes, M):
    out = []
    for n in nodes:
        (x, y, z), d, t = b.planes[n["plane"]]
        r = lattice(M, (x, y, z), d)
        if r:
            a, dd, sg = r
            out.append(dict(a=a, d=dd, c=list(n["ch"]) if sg > 0 else [n["ch"][1], n["ch"][0]], n=[]))
        else:
            v = [sum(M[i][j] * (x, y, z)[i] for i in range(3)) for j in range(3)]
            out.append(dict(a=3, d=int(round(d * 1024)), n=[int(round(w * 1024)) for w in v], c=list(n["ch"])))
    return out

def tree_of(b, M, model, hull):
    src = b.clipnodes if hull else b.nodes
    nd, hd = compiler.sub_tree(lat_nodes(b, src, M), b.models[model]["head"][hull])
    if hull:
        return dict(nodes=nd, head=hd, leafs=[compiler.Q1C[-k] for k in range(1, 7)])
    return dict(nodes=nd, head=hd, leafs=[kind(b, l["contents"]) for l in b.leafs])

VISIBLE = 0x7f
def strongest(v):
    """a Quake II brush has one visible content only"""
    w = v & VISIBLE
    return v & ~(w & (w - 1))

def kind(b, v):
    return "%d" % strongest(v) if b.q2 else compiler.Q1C.get(v, "?%d" % v)

SOLIDTEX = {"clip": "SOLID"}
def name_kind(names):
    """what a Quake brush with these textures is"""
    ks = set()
    for t in names:
        l = t.lower()
        if l.startswith("*lava") or l.startswith("!lava"):
            ks.add("LAVA")
        elif l.startswith("*slime") or l.startswith("!slime"):
            ks.add("SLIME")
        elif l.startswith("*") or l.startswith("!"):
            ks.add("WATER")
        elif l.startswith("sky"):
            ks.add("SKY")
        else:
            ks.add("SOLID")
    if len(ks) != 1:
        raise Bad("a brush with the textures %r is %r" % (names, sorted(ks)))
    return ks.pop()

def faces_of(b, model, M):
    out = []
    m = b.models[model]
    for k in range(m["firstface"], m["firstface"] + m["numfaces"]):
        f = b.faces[k]
        (x, y, z), d, t = b.planes[f["plane"]]
        n = [x, y, z]
        if f["side"]:
            n, d = [-x, -y, -z], -d
        r = lattice(M, n, d)
        if not r:
            return None
        a, dd, s = r
        D = det3(M)
        q = []
        for vi in bspread.face_verts(b, f):
            p = b.vertexes[vi]
            # solve M q = p
            v = []
            for j in range(3):
                mm = [list(row) for row in M]
                for i in range(3):
                    mm[i][j] = p[i]
                v.append(det3(mm) / D)
            q.append(v)
        lo = [int(round(min(v[i] for v in q))) for i in range(3)]
        hi = [int(round(max(v[i] for v in q))) for i in range(3)]
        ti = b.texinfo[f["texinfo"]]
        out.append(dict(a=a, d=dd, s=s, lo=lo, hi=hi, t=ti["tex"] or "", vec=texvec(ti["vecs"]), k="" if b.q2 else name_kind([ti["tex"] or ""])))
    return out

# ---------------------------------------------------------------- made-up BSPs
TEXOF = {-2: ["wall1", "wall2", "two words", "{fence"], -3: ["*water1", "*water2"], -4: ["*slime1"], -5: ["*lava1"], -6: ["sky1", "sky4"]}

def made_up(rng, fmt):
    """a random tree over a lattice, faces on every boundary; clip hulls are trees of their own"""
    M = ID if rng.random() < 0.5 else rng.choice(SLOPES)
    n = [rng.randrange(1, 5) for _ in range(3)]
    G = []
    for a in range(3):
        x = -rng.randrange(20, 120)
        g = [x]
        for _ in range(n[a]):
            x += rng.randrange(16, 60)
            g.append(x)
        G.append(g)
    outer = rng.random() < 0.6
    tight = rng.random() < 0.5
    withfaces = rng.random() < 0.7
    textures, texinfo, planes, pidx = [], [], [], {}
    scale2 = rng.choice([False, True])
    def plane(a, d):
        k = (a, d)
        if k not in pidx:
            # lattice plane q[a] = d  in the world: normal is row a of the inverse of M
            D = det3(M)
            inv = [[(M[(j + 1) % 3][(i + 1) % 3] * M[(j + 2) % 3][(i + 2) % 3] - M[(j + 1) % 3][(i + 2) % 3] * M[(j + 2) % 3][(i + 1) % 3]) / D for j in range(3)] for i in range(3)]
            v = inv[a]
            l = math.sqrt(dot(v, v))
            sg = rng.choice([1, 1, -1]) if M != ID else 1
            nn = [sg * x / l for x in v]
            t = 3 + max(range(3), key=lambda i: abs(nn[i]))
            if abs(nn[t - 3]) > 1 - 1e-9:
                t -= 3
            planes.append(tuple(nn) + (sg * d / l, t))
            pidx[k] = (len(planes) - 1, sg)
        return pidx[k]
    def tex(name):
        if name not in textures:
            textures.append(name)
        return textures.index(name)
    leafs = [(-2, -1) + (0,) * 6 + (0, 0) + (0,) * 4]
    clip = rng.random() < 0.5
    def content():
        return rng.choice([-1, -1, -1, -2, -2, -2, -3, -4, -5, -6])
    nodes = []
    cell = {}
    def leaf(v, box):
        for i in range(box[0][0], box[0][1]):
            for j in range(box[1][0], box[1][1]):
                for k in range(box[2][0], box[2][1]):
                    cell[i, j, k] = v
        if v == -2 and rng.random() < 0.8:
            return -1
        leafs.append((v, -1) + (0,) * 6 + (0, 0) + (0,) * 4)
        return -len(leafs)
    def grow(nodes, box, lf, p):
        ch = [(a, i) for a in range(3) for i in range(box[a][0] + 1, box[a][1])]
        if not ch or (rng.random() < p and len(nodes) > 1):
            return lf(box)
        a, i = rng.choice(ch)
        me = len(nodes)
        nodes.append(None)
        f, g = [list(x) for x in box], [list(x) for x in box]
        f[a][0] = i
        g[a][1] = i
        pl, sg = plane(a, G[a][i])
        c = [grow(nodes, f, lf, p), grow(nodes, g, lf, p)]
        nodes[me] = [pl, c if sg > 0 else c[::-1], box, (a, i)]
        return me
    def whole(nodes, lf, solid, p):
        """outer planes first: beyond them is solid"""
        box = [[0, n[a]] for a in range(3)]
        if not outer:
            return grow(nodes, box, lf, p)
        for a in range(3):
            for s in (0, 1):
                me = len(nodes)
                pl, sg = plane(a, G[a][-1] if s else G[a][0])
                nodes.append([pl, None, box, None])
                c = [solid, me + 1] if s else [me + 1, solid]
                nodes[me][1] = c if sg > 0 else c[::-1]
        last = len(nodes)
        r = grow(nodes, box, lf, p)
        nodes[last - 1][1] = [r if x == last else x for x in nodes[last - 1][1]]
        return 0
    models = []
    nm = rng.choice([1, 1, 2])
    clipnodes = []
    nh = 7 if fmt.startswith("h2") else 3
    faces, verts, edges, surfedges, marks = [], [], [(0, 0)], [], []
    ents = ['{\n"classname" "worldspawn"\n"message" "%s"\n}\n' % rng.choice(["hello", "a // b", "two  spaces", "x;y", "\xe9t\xe9"])]
    allnodes = []
    for mi in range(nm):
        nodes = []
        cell.clear()
        before = len(leafs)
        h = whole(nodes, lambda box: leaf(content(), box), -1, 0.15)
        if h < 0 or len(nodes) == 0:
            h = 0
            pl, sg = plane(0, G[0][0])
            nodes.append([pl, [leaf(-2, [[0, 0]] * 3), leaf(-1, [[0, 0]] * 3)], [[0, n[a]] for a in range(3)], None])
        base = len(allnodes)
        first = len(faces)
        for nd in nodes:
            nd.append(len(faces))
            if withfaces and nd[3]:
                a, i = nd[3]
                o = [x for x in range(3) if x != a]
                for u in range(nd[2][o[0]][0], nd[2][o[0]][1]):
                    for v in range(nd[2][o[1]][0], nd[2][o[1]][1]):
                        q = [0, 0, 0]
                        q[o[0]], q[o[1]] = u, v
                        q[a] = i
                        up = cell.get(tuple(q))
                        q[a] = i - 1
                        dn = cell.get(tuple(q))
                        for src, oth, s in ((up, dn, -1), (dn, up, 1)):
                            if src is None or oth is None or src == oth or src == -1 or (oth == -2) or (src in (-3, -4, -5) and oth != -1):
                                continue
                            if rng.random() < 0.1:
                                continue
                            name = rng.choice(TEXOF[src])
                            if M != ID and M not in ORTHO:
                                name = TEXOF[src][0]
                            vecs = rng.choice([(1, 0, 0, 0, 0, -1, 0, 0), (0, 0.5, 0, 8, 0, 0, -2, -24), (1, 0, 0, 13, 0, -1, 0, 5)] if M == ID or M in ORTHO else [(1, 0, 0, 0, 0, -1, 0, 0)])
                            ti = tuple(vecs) + (tex(name), 0)
                            if ti not in texinfo:
                                texinfo.append(ti)
                            pl, sg = plane(a, G[a][i])
                            c = []
                            for du, dv in ((0, 0), (1, 0), (1, 1), (0, 1)):
                                q = [0, 0, 0]
                                q[o[0]], q[o[1]], q[a] = G[o[0]][u + du], G[o[1]][v + dv], G[a][i]
                                c.append(to_world(M, q))
                            nn = cross([x - y for x, y in zip(c[2], c[1])], [x - y for x, y in zip(c[0], c[1])])
                            want = [s * sg * x for x in planes[pl][:3]]
                            if dot(nn, want) > 0:     # Quake faces are wound clockwise seen from the front
                                c = c[::-1]
                            fe = len(surfedges)
                            vb = len(verts)
                            verts += [tuple(float(x) for x in p) for p in c]
                            for k in range(4):
                                edges.append((vb + k, vb + (k + 1) % 4))
                                surfedges.append(len(edges) - 1)
                            faces.append((pl, 0 if s * sg > 0 else 1, fe, 4, texinfo.index(ti), 255, 255, 255, 255, -1))
            nd.append(len(faces) - nd[4])
        pts = [to_world(M, [G[0][x * n[0]], G[1][y * n[1]], G[2][z * n[2]]]) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        grow_ = 0 if tight else rng.choice([1, 24])
        mins = [min(p[i] for p in pts) - grow_ for i in range(3)]
        maxs = [max(p[i] for p in pts) + grow_ for i in range(3)]
        for nd in nodes:
            allnodes.append((nd[0],) + tuple(x + base if x >= 0 else x for x in nd[1]) + tuple(mins) + tuple(maxs) + (nd[4], nd[5]))
        heads = [base]
        for hh in range(1, nh + 1):
            if not clip or hh > 2:
                heads.append(0)
                continue
            cn = []
            hd = whole(cn, lambda box: rng.choice([-1, -2]), -2, 0.3)
            if hd < 0:
                heads.append(hd)
                continue
            cb = len(clipnodes)
            clipnodes += [(x[0],) + tuple(y + cb if y >= 0 else y for y in x[1]) for x in cn]
            heads.append(cb)
        models.append(tuple(float(x) for x in mins + maxs) + (0.0, 0.0, 0.0) + tuple(heads) + (len(leafs) - before, first, len(faces) - first))
        if mi:
            ents.append('{\n"classname" "%s"\n"%s" "*1"\n%s}\n' % (rng.choice(["func_wall", "func_door"]), "model", '"origin" "16 -24 %d"\n' % rng.choice([0, 8]) if rng.random() < 0.6 else ""))
    if rng.random() < 0.3:
        ents.append('{\n"note" "nameless"\n}\n')
    if rng.random() < 0.5:
        ents.append('{\n"classname" "light"\n"origin" "1 2 3"\n"light" "300"\n}\n' if rng.random() < 0.5 else '{\n"origin" "0 0 0"\n"classname" "info_null"\n"k" ""\n}\n')
    q2b = fmt
    tl = struct.pack("<i", len(textures))
    body, offs = b"", []
    for t in textures:
        offs.append(4 + 4 * len(textures) + len(body))
        body += t.encode()[:15].ljust(16, b"\0") + struct.pack("<6I", 16, 16, 40, 296, 360, 376) + bytes(340)
    tl += b"".join(struct.pack("<i", o) for o in offs) + body
    lumps = dict(entities="".join(ents).encode("latin1") + b"\0", planes=planes, textures=tl, vertexes=verts or [(0.0, 0.0, 0.0)], visibility=b"", nodes=allnodes,
                 texinfo=texinfo or [(1, 0, 0, 0, 0, 1, 0, 0, 0, 0)], faces=faces, lighting=b"", clipnodes=clipnodes or [(0, -1, -2)], leafs=leafs, marksurfaces=[], edges=edges, surfedges=surfedges, models=models)
    return bspfmt.build(fmt, lumps), M, n, G, clip

HULLS = {"q1": [((-16, -16, -24), (16, 16, 32)), ((-32, -32, -24), (32, 32, 64))],
         "h2": [((-16, -16, -24), (16, 16, 32)), ((-24, -24, -20), (24, 24, 20)), ((-16, -16, -12), (16, 16, 16)), ((-8, -8, -8), (8, 8, 8)), ((-28, -28, -40), (28, 28, 40))],
         "hl": [((-16, -16, -36), (16, 16, 36)), ((-32, -32, -32), (32, 32, 32)), ((-16, -16, -18), (16, 16, 18))]}

# ---------------------------------------------------------------- compiled worlds
def compiled_map(rng, game):
    kinds = ["solid", "solid", "water", "slime", "lava", "sky", "detail", "hint", "clip"] if game == "q2" else ["solid", "solid", "water", "slime", "lava", "sky", "clip", "detail", "fence", "wall", "hint"]
    m = mapgen.gen(rng, kinds, leak=0.1, cells=(3, 3, 3), nbrush=(2, 6))
    if rng.random() < 0.6:
        compiler.add_bmodels(rng, m, rng.randrange(1, 3))
    Q2 = {"solid": ("e1u1/wall", "0 0 0"), "water": ("e1u1/water", "32 8 0"), "slime": ("e1u1/slime", "16 8 0"), "lava": ("e1u1/lava", "8 8 0"), "sky": ("e1u1/sky1", "1 4 0"),
          "detail": ("e1u1/det", "134217729 0 0"), "hint": ("e1u1/hint", "0 256 0"), "clip": ("e1u1/clip", "65536 128 0")}
    n = [0]
    def dress(b):
        n[0] += 1
        base = mapgen.KINDS[b.kind][0]
        tp = [(rng.randrange(-4, 5) * 8, rng.randrange(-4, 5) * 8, rng.choice([1, 1, 0.5, 2, -1]), rng.choice([1, 1, 2, 0.25])) for _ in range(6)]
        if game == "q2":
            t, a = Q2[b.kind]
            b.texs = [t if b.kind in ("clip", "hint") else "%s%d" % (t, rng.randrange(3)) for _ in range(6)]
            if b.kind == "clip":
                a = rng.choice(["65536 128 0", "131072 128 0", "196608 128 0"])
                t = "e1u1/clip_mon" if a[0] == "1" and a[1] == "3" else t
                b.texs = [t if rng.random() < 0.7 else "e1u1/wall1"] * 6
            if b.kind == "detail":
                a = rng.choice(["134217729 0 0", "134217728 0 0", "64 0 0", "134217730 32 0", "2 16 0", "4 0 0"])
            if b.kind == "water" and rng.random() < 0.4:
                a = "32 %d 0" % (8 | 16)
            v = a.split()
            if b.kind == "solid":
                v = [rng.choice(["1", "0"]), rng.choice(["0", "1"]), rng.choice(["0", "200"])]
            b.attrs = " ".join(v)
        elif b.kind in ("clip", "hint"):
            b.texs = [base] * 6
        elif b.kind == "sky":
            b.texs = ["sky%d" % rng.randrange(2) for _ in range(6)]
        else:
            b.texs = ["%s%d_%d" % (base[:6], n[0] % 4, rng.randrange(2)) for k in range(6)]
        def text():
            s = "{\n"
            for (p, q, r), t, (ox, oy, sx, sy) in zip(mapgen.box_faces(b.lo, b.hi), b.texs, tp):
                s += "( %d %d %d ) ( %d %d %d ) ( %d %d %d ) %s %d %d 0 %g %g%s\n" % (p + q + r + (t, ox, oy, sx, sy, " " + b.attrs if b.attrs else ""))
            return s + "}\n"
        b.text = text
    for b in m.brushes:
        dress(b)
    bm = []
    for cls, bs, extra in m.bmodels:
        for b in bs:
            dress(b)
        if rng.random() < 0.6:
            o = [rng.randrange(-20, 20) * 4 for _ in range(3)]
            ob = mapgen.Brush([x - 8 for x in o], [x + 8 for x in o], "solid", texs=["e1u1/origin" if game == "q2" else "origin"] * 6, attrs="16777216 0 0" if game == "q2" else None)
            bs = bs + [ob]
        elif rng.random() < 0.4:
            extra = dict(extra, origin="%d %d %d" % tuple(rng.randrange(-9, 9) * 8 for _ in range(3)))
        extra = dict(extra, targetname="t%d" % len(bm)) if rng.random() < 0.5 else extra
        bm.append((cls if game != "q2" else rng.choice(["func_wall", "func_door", "trigger_multiple"]), bs, extra))
    if game == "q2":
        for i in range(rng.choice([0, 0, 1, 2])):      # func_areaportal: the brush becomes part of the world
            ax = rng.randrange(3)                      # right through the world, so that it parts two areas
            lo, hi = [p[0] for p in m.palette], [p[-1] for p in m.palette]
            lo[ax] = rng.randrange(lo[ax] // 8, hi[ax] // 8) * 8
            hi[ax] = lo[ax] + 8
            b = mapgen.Brush(lo, hi, "solid", texs=["e1u1/trigger"] * 6, attrs="0 0 0")
            bm.insert(rng.randrange(len(bm) + 1), ("func_areaportal", [b], {"targetname": "p%d" % i}))
    m.bmodels = bm
    m.world["message"] = rng.choice(["plain", "with // slashes", "a\\nb"])
    return m

def read_check(path):
    b = bspread.read(path)
    return b

MODES = {"plain": "--decompile", "geom": "--decompile-geomonly", "leafs": "--decompile-ignore-brushes"}

def one(job):
    """compile or make up a BSP, decompile it, recompile; returns the cases"""
    import random
    i, seed, kindof, d, exes = job
    rng = random.Random(seed * 1000003 + i)
    os.makedirs(d)
    bsp = os.path.join(d, "m.bsp")
    what = "case %d" % i
    cut = None
    if kindof == "made":
        fmt = rng.choice(["bsp29", "bsp29", "hl", "bsp2rmq", "bsp2", "h2", "h2bsp2rmq", "h2bsp2"])
        data, M, n, G, clip = made_up(rng, fmt)
        open(bsp, "wb").write(data)
        game = "h2" if fmt.startswith("h2") else "hl" if fmt == "hl" else "q1"
        args = {"q1": [], "h2": ["-hexen2"], "hl": ["-hlbsp"]}[game]
        ok = [set(G[a]) for a in range(3)]
        hulls = 2 if clip else 0
        if rng.random() < 0.2:
            fmt += ""
    else:
        game = rng.choice(["q1", "q1", "h2", "hl", "q2", "q2", "q2", "qbism"])
        fmt = game
        args = {"q1": [], "h2": ["-hexen2"], "hl": ["-hlbsp"], "q2": ["-q2bsp"], "qbism": ["-qbism"]}[game]
        m = compiled_map(rng, "q2" if game == "qbism" else game)
        M, G = ID, None
        extra = list(rng.choice([[], [], ["-nofill"], ["-bsp2"] if game == "q1" else [], ["-nomerge"], ["-subdivide", "64"], ["-forcegoodtree"], ["-maxnodesize", "64"]]))
        if game not in ("q2", "qbism"):
            with open(os.path.join(d, "t.wad"), "wb") as f:
                f.write(mapgen.wad2(mapgen.texnames(m)))
            m.world["wad"] = "t.wad"
        r = compiler.compile_map(exes["qbsp"], m, d, args=args + extra + ["-notjunc"], threads=1)
        if r.bsp is None:
            return [("error", "%s: qbsp: %s" % (what, r.log[-800:]), d)]
        hulls = {"q1": 2, "h2": 5, "hl": 3}.get(game, 0)
        what += " qbsp " + " ".join(args + extra)
        ok = None
    try:
        b = bspread.read(bsp)
    except bspread.BadBSP as e:
        return [("error", "%s: %s" % (what, e), d)]
    mode = rng.choice(["plain", "plain", "plain", "geom", "leafs"] + (["hull"] * 2 if hulls else []))
    hull = rng.randrange(1, hulls + 1) if mode == "hull" else 0
    usebrushes = b.q2 and mode in ("plain", "geom")
    cmd = [exes["bsputil"], "--decompile-hull" if hull else MODES[mode]] + ([str(hull)] if hull else []) + [bsp]
    orig = open(bsp, "rb").read()
    rc, log = vlib.run(cmd, cwd=d, timeout=60)
    what += " [%s, %s%s]" % (fmt, mode, hull or "")
    if open(bsp, "rb").read() != orig:
        return [("error", what + ": the BSP was changed", d)]
    out = os.path.join(d, "m.decompile.hull%d.map" % hull if hull else "m.decompile.map")
    if rc != 0 or not os.path.exists(out):
        return [("error", "%s: bsputil exit %s: %s" % (what, rc, log[-800:]), d)]
    try:
        ents = read_map(out)
        src = parse_ents(b.entities)
    except (Bad, IndexError, ValueError) as e:
        return [("error", "%s: the map written is not a map: %r" % (what, e), d)]
    # recompile (a func_areaportal that does not part two areas has lost its brush, and cannot be)
    again = None
    lost = any(dict(s).get("classname") == "func_areaportal" and "style" not in dict(s) for s in src)
    if not hull and not lost:
        rd = os.path.join(d, "again")
        os.makedirs(rd)
        shutil.copy(out, os.path.join(rd, "a.map"))
        if os.path.exists(os.path.join(d, "t.wad")):
            shutil.copy(os.path.join(d, "t.wad"), rd)
        rc, log = vlib.run([exes["qbsp"], "-nopercent", "-threads", "1"] + args + (["-nofill"] if not usebrushes or "-nofill" in what else []) + [os.path.join(rd, "a.map"), os.path.join(rd, "a.bsp")], cwd=rd, timeout=60)
        if rc != 0:
            return [("error", "%s: the decompiled map does not compile: %s" % (what, log[-800:]), d)]
        again = bspread.read(os.path.join(rd, "a.bsp"))
    if len(ents) != len(src):
        return [("error", "%s: %d entities of %d" % (what, len(ents), len(src)), d)]
    cases = []
    if any(all(f["t"].split("/")[-1] == "origin" for x in e["brushes"] for f in x) for e, s in zip(ents, src) if e is ents[0] or dict(s).get("model", "").startswith("*")):
        again = None     # an entity of nothing has no model
    for ei, (e, s) in enumerate(zip(ents, src)):
        try:
            cases.append(("case", *one_entity(b, again, e, s, ei, M, G, hull, mode, usebrushes, game, what), d))
        except (Bad, bspread.BadBSP, IndexError, KeyError) as x:
            cases.append(("error", "%s entity %d: %r" % (what, ei, x), d))
    return cases

def numbers(s):
    return [int(round(float(x) * 64)) for x in s.split()]

def one_entity(b, again, e, s, ei, M, G, hull, mode, usebrushes, game, what):
    sk = dict(s)
    model = 0 if ei == 0 else int(sk["model"][1:]) if sk.get("model", "").startswith("*") else -1
    gk = e["keys"]
    bad = [k for k, v in gk if k == "model" and v.startswith("*")]
    if bad:
        raise Bad("key model kept")
    brushes = list(e["brushes"])
    place = {"want": [], "got": []}
    off = [0.0, 0.0, 0.0]
    if model > 0:
        o = [x for x in brushes if all(f["t"].split("/")[-1] == "origin" for f in x)]
        if len(o) > 1:
            raise Bad("%d origin brushes" % len(o))
        place["want"] = numbers(sk.get("origin", "0 0 0"))
        key = dict(gk).get("origin")
        if o:
            off = [0.0] * 3
            for a in range(3):
                v = sorted(f["d"] * f["n"][a] for f in o[0] if abs(f["n"][a]) > 0.99)
                off[a] = (v[0] + v[-1]) / 2
            brushes = [x for x in brushes if x is not o[0]]
            place["got"] = [int(round(x * 64)) for x in off]
            if key is not None:
                raise Bad("origin brush and origin key")
        else:
            place["got"] = numbers(key or "0 0 0")
        drop = ("model", "origin")
    else:
        drop = ("model",) if model >= 0 or "model" in sk else ()
        drop = tuple(k for k in drop if sk.get(k, "").startswith("*"))
    case = {"keys": {"want": [x for x in s if x[0] not in drop], "got": [x for x in gk if x[0] not in drop]}, "place": place,
            "lump": {"want": [], "got": []}, "apart": False, "textured": False, "recompiled": False, "again": {"nodes": [], "head": -1, "leafs": ["X"]},
            "brushes": [], "faces": [], "filled": True, "alike": [], "empty": ["EMPTY", "0"]}
    portal = b.q2 and sk.get("classname") == "func_areaportal" and "style" in sk
    if portal:
        case["keys"]["want"] = [x for x in case["keys"]["want"] if x[0] != "style"]
        n = [k for k, x in enumerate(b.brushes) if x["contents"] & 0x8000][int(sk["style"]) - 1]
        lump(case, b, [n], brushes, off, "plain" if mode == "plain" else "geom", False)
    if model < 0:
        if brushes and not portal:
            raise Bad("brushes on an entity without a model")
        case["tree"] = {"nodes": [], "head": -1, "leafs": ["EMPTY"]}
        case["bounds"] = {"lo": [0, 0, 0], "hi": [1, 1, 1]}
        return case, "%s entity %d" % (what, ei)
    case["tree"] = t = tree_of(b, M, model, hull)
    head = b.nodes[b.models[model]["head"][0]] if b.models[model]["head"][0] >= 0 else None
    mm = b.models[model]
    wb = [mm["mins"], mm["maxs"]] + ([head["mins"], head["maxs"]] if head else [])
    if hull:     # a hull sticks out of its model
        lo, hi = HULLS["q1" if b.fmt != "hl" and len(mm["head"]) == 4 else "hl" if b.fmt == "hl" else "h2"][hull - 1]
        # (stored bounds of models are 1 unit inside the model)
        wb += [[x - y - 1 for x, y in zip(mm["mins"], hi)], [x - y + 1 for x, y in zip(mm["maxs"], lo)]]
    cuts = [sorted({x["d"] for x in t["nodes"] if x["a"] == a}) for a in range(3)]
    fs = faces_of(b, model, M) if not hull else []
    extra = [set(c) for c in cuts]
    for f in fs or []:
        for a in range(3):
            extra[a] |= {f["lo"][a], f["hi"][a]}
    if M == ID:
        # the hulls reach beyond the model by the size of the player
        use = (head["mins"], head["maxs"]) if (head and not hull) else (mm["mins"], mm["maxs"])
        bounds = {"lo": [int(math.floor(x)) for x in use[0]], "hi": [int(math.ceil(x)) for x in use[1]]}
        for a in range(3):
            for x in cuts[a]:
                bounds["lo"][a] = min(bounds["lo"][a], x)
                bounds["hi"][a] = max(bounds["hi"][a], x)
    else:
        bounds = {"lo": [g[0] for g in G], "hi": [g[-1] for g in G]}
    case["bounds"] = bounds
    case["filled"] = True
    trigger = model > 0 and sk.get("classname", "").startswith("trigger_")
    kinds = sorted(set(t["leafs"]))
    if model > 0 and not b.q2:         # the compiler makes every Quake brush entity solid
        case["alike"] = [[k for k in kinds + ["SOLID"] if k != "EMPTY"]]
    elif b.q2 and (trigger or mode != "plain"):      # translucency comes from textures that are not kept
        case["alike"] = [[k, "%d" % (int(k) ^ 0x10000000)] for k in kinds]
    if usebrushes:
        lump(case, b, [k for k in listed(b, t) if not b.brushes[k]["contents"] & 0x8000], brushes, off, mode, trigger)
    else:
        for x in brushes:
            lo, hi, tex, closed = brush_box(x, M, off, bounds, wb, extra)
            if any(l >= h for l, h in zip(lo, hi)):
                continue
            if b.q2:
                k = "%d" % (x[0]["info"][0] if x[0]["info"] else 0)
            else:
                k = "SOLID" if hull or mode == "geom" and False else name_kind([f["t"] for f in x])
            if k in case["empty"]:
                continue
            case["brushes"].append(dict(lo=lo, hi=hi, tex=tex, closed=closed, k=k))
        case["apart"] = True
        if mode == "plain" and fs is not None and (M == ID or M in ORTHO or True):
            case["faces"] = fs
            case["textured"] = True
            if model > 0 and dict(s).get("classname", "").startswith("trigger_"):
                case["textured"] = False
    if again is not None and not (trigger and not b.q2):
        if len(again.models) != len(b.models):
            raise Bad("%d models of %d after recompiling" % (len(again.models), len(b.models)))
        case["again"] = tree_of(again, M, model, 0)
        case["recompiled"] = True
    return case, "%s entity %d" % (what, ei)

def listed(b, t):
    """Quake II: the brushes the model's leaves list"""
    used = set()
    stack = [t["head"]]
    while stack:
        n = stack.pop()
        if n >= 0:
            stack += t["nodes"][n]["c"]
        else:
            l = b.leafs[-n - 1]
            for k in range(l["firstb"], l["firstb"] + l["numb"]):
                used.add(b.leafbrushes[k])
    return sorted(used)

def usual(ct):
    for bit, name in ((32, "water4"), (16, "sewer1"), (8, "brlava"), (0x10000, "clip"), (0x20000, "clip_mon"), (0x8000, "trigger")):
        if ct & bit:
            return "e1u1/" + name
    return "e1u1/skip"

def lump(case, b, used, brushes, off, mode, trigger):
    case["filled"] = False
    case["brushes"] = []
    far = {"lo": [-10 ** 6] * 3, "hi": [10 ** 6] * 3}
    def box(sides):
        lo, hi = [None] * 3, [None] * 3
        tex = [None] * 6
        for n, d, x in sides:
            r = lattice(ID, n, d)
            if r is None:
                raise Bad("side %r %r of a brush" % (n, d))
            a, v, sg = r
            if tex[2 * a + (sg > 0)] is not None:
                raise Bad("two sides facing the same way")
            (hi if sg > 0 else lo)[a] = v
            tex[2 * a + (sg > 0)] = x
        return lo, hi, tex
    for k in used:
        br = b.brushes[k]
        ss = []
        for pl, ti in b.brushsides[br["first"]:br["first"] + br["num"]]:
            n, d, _ = b.planes[pl]
            x = b.texinfo[ti] if ti >= 0 else None
            ct = br["contents"]
            clip = "e1u1/clip" if ct & 0x10000 else "e1u1/clip_mon" if ct & 0x20000 else None
            if mode != "plain" or trigger:
                tex = {"i": [ct]}
            elif ct == 0:      # brushes of nothing are hints
                tex = {"t": "e1u1/hint", "i": [ct, 0x100, 0]}
            elif x and x["tex"]:
                tex = {"t": clip or x["tex"], "vec": texvec(x["vecs"]), "i": [ct, x["flags"], x["value"]]}
            else:              # a side without a texture
                tex = {"t": None, "i": [ct, 0x80, 0]}
            ss.append((n, d, tex))
        lo, hi, tex = box(ss)
        bare = all("t" in x and x["t"] is None for x in tex if x)
        for x in tex:
            if x and "t" in x and x["t"] is None:
                if bare:       # one of the usual textures for what the brush is
                    x["t"] = usual(ct)
                else:          # that of some other side
                    del x["t"]
        case["lump"]["want"].append({"lo": lo, "hi": hi, "tex": tex})
    plain = mode == "plain" and not trigger
    for n, x in enumerate(brushes):
        ss = []
        for f in x:
            i = f["info"] or [0, 0, 0]
            vec = []
            for v in f["vecs"] or [[4000] * 4] * 2:
                vec += [int(round(y * 256)) for y in v[:3]] + [int(round((v[3] + dot(v[:3], off)) * 16))]
            ss.append((f["n"], f["d"] - dot(f["n"], off), {"t": f["t"], "vec": vec, "i": i} if plain else {"i": i[:1]}))
        lo, hi, tex = box(ss)
        if n < len(case["lump"]["want"]):      # textures the decompiler makes up have no placement to keep
            for y, z in zip(case["lump"]["want"][n]["tex"], tex):
                for k in ("vec", "t"):
                    if y and z and k not in y:
                        z.pop(k, None)
        case["lump"]["got"].append({"lo": lo, "hi": hi, "tex": tex})

def pool(jobs):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(vlib.NPROC) as ex:
        return list(ex.map(one, jobs, chunksize=4))


LAWS = """SPECIFICATION Spec
CONSTANTS Depth = %s
 Planes <- %s
 Kinds = %s
INVARIANTS Partition Filled Real Bounded
CHECK_DEADLOCK FALSE
"""

def laws(c):
    """the specified walk over every small tree"""
    three, two = '{"EMPTY", "SOLID", "WATER"}', '{"EMPTY", "SOLID"}'
    for depth, planes, kinds in ((2, "McPlanes", three),) if c.quick else ((2, "McPlanes", three), (3, "McFew", two)):
        r = vlib.tlc("DecompileMC", LAWS % (depth, planes, kinds), timeout=700, workers=4)
        c.add_tlc(r)
        if not r.ok:
            raise vlib.CheckError("DecompileMC: %s\n%s" % (r.violated, r.out[-2000:]))

def check(c):
    exes = c.build("qbsp", "bsputil")
    laws(c)
    total = c.n(240, 3000)
    jobs = [(i, c.seed, "made" if i % 2 else "compiled", os.path.join(c.scratch, "%d" % i), exes) for i in range(total)]
    cases, meta = [], []
    for j, res in zip(jobs, pool(jobs)):
        for r in res:
            files = [os.path.join(r[-1], x) for x in ("m.map", "m.bsp", "m.decompile.map", "m.decompile.hull1.map", "m.decompile.hull2.map", "again/a.bsp")]
            files = [x for x in files if os.path.exists(x)]
            if r[0] == "error":
                c.violation("C20 " + r[1], files)
                continue
            cases.append(r[1])
            meta.append(("C20 " + r[2], files))
    c.count("entities", len(cases))
    inv = ["WalkFills", "Closed", "Filled", "Apart", "Again", "Textured", "Keys", "Placed", "Lump"]
    bad = vlib.tlc_cases(c, "DecompileTrace", inv, cases, consts="ALIAS Alias\n", weight=lambda x: 5 + len(x["tree"]["nodes"]) * (1 + len(x["brushes"])))
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-3000:]), meta[k][1], data=cases[k])

if __name__ == "__main__":
    vlib.main(check, "C20")
