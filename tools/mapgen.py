"""Random maps made of axis-aligned boxes, and the abstract description of each that the specification reads."""
import os

# kind -> (texture, entity class it is wrapped in or None for worldspawn)
KINDS = {
    "solid": ("wall", None), "water": ("*water", None), "slime": ("*slime", None), "lava": ("*lava", None),
    "sky": ("sky1", None), "clip": ("clip", None), "hint": ("hint", None),
    "detail": ("det", "func_detail"), "fence": ("{fence", "func_detail_fence"), "wall": ("dwall", "func_detail_wall"),
    "illus": ("illu", "func_detail_illusionary"),
}

def box_faces(lo, hi):
    """three points per face, in the order -x +x -y +y -z +z (outward normals by the Quake convention)"""
    x0, y0, z0 = lo
    x1, y1, z1 = hi
    return [
        ((x0, y0, z0), (x0, y1, z0), (x0, y0, z1)),
        ((x1, y0, z0), (x1, y0, z1), (x1, y1, z0)),
        ((x0, y0, z0), (x0, y0, z1), (x1, y0, z0)),
        ((x0, y1, z0), (x1, y1, z0), (x0, y1, z1)),
        ((x0, y0, z0), (x1, y0, z0), (x0, y1, z0)),
        ((x0, y0, z1), (x0, y1, z1), (x1, y0, z1)),
    ]

class Brush:
    def __init__(self, lo, hi, kind="solid", tex=None, texs=None, model=0, attrs=None):
        self.lo, self.hi, self.kind, self.model = tuple(lo), tuple(hi), kind, model
        t = tex or KINDS[kind][0]
        self.texs = texs or [t] * 6
        self.attrs = attrs  # text after the texture values (Quake II contents flags value)

    def text(self):
        s = "{\n"
        for (a, b, c), t in zip(box_faces(self.lo, self.hi), self.texs):
            s += "( %d %d %d ) ( %d %d %d ) ( %d %d %d ) %s 0 0 0 1 1%s\n" % (a + b + c + (t, " " + self.attrs if self.attrs else ""))
        return s + "}\n"

class Map:
    def __init__(self):
        self.brushes = []
        self.ents = []      # (classname, origin, extra dict)
        self.bmodels = []   # (classname, [brushes], extra dict)
        self.world = {}
        self.merge_detail = False

    def text(self):
        w = {"classname": "worldspawn"}
        w.update(self.world)
        out = "{\n" + "".join('"%s" "%s"\n' % kv for kv in w.items())
        groups = {}
        for b in self.brushes:
            cls = KINDS[b.kind][1]
            if cls is None:
                out += b.text()
            else:
                groups.setdefault((cls, getattr(b, "group", 0)), []).append(b)
        out += "}\n"
        for (cls, _), bs in groups.items():
            out += '{\n"classname" "%s"\n' % cls + "".join(b.text() for b in bs) + "}\n"
        for cls, bs, extra in self.bmodels:
            out += '{\n"classname" "%s"\n' % cls + "".join('"%s" "%s"\n' % kv for kv in extra.items()) + "".join(b.text() for b in bs) + "}\n"
        for cls, o, extra in self.ents:
            out += '{\n"classname" "%s"\n"origin" "%s"\n' % (cls, "%d %d %d" % tuple(o)) + "".join('"%s" "%s"\n' % kv for kv in extra.items()) + "}\n"
        return out

    def write(self, path):
        with open(path, "w") as f:
            f.write(self.text())

def palette(rng, n, lo=16, hi=80, step=8):
    """n+1 sorted coordinates"""
    x = -step * rng.randrange(4, 24)
    r = [x]
    for _ in range(n):
        x += step * rng.randrange(lo // step, hi // step + 1)
        r.append(x)
    return r

def gen(rng, kinds, cells=(4, 4, 3), nbrush=(3, 9), leak=0.25, scale=(16, 80), nents=(1, 3), inner=0.5, sides=False, style=None, noent=0.05):
    """a shell of boxes around a palette grid, possibly with holes, and random boxes of the given kinds inside"""
    m = Map()
    n = [rng.randrange(max(3, c - 1), c + 2) for c in cells]
    P = [palette(rng, n[a], scale[0], scale[1]) for a in range(3)]
    m.palette = P
    tid = [0]
    def tex(kind):
        return None
    def add(i0, i1, kind):
        b = Brush([P[a][i0[a]] for a in range(3)], [P[a][i1[a]] for a in range(3)], kind)
        tid[0] += 1
        if sides:
            base = KINDS[kind][0]
            if kind in ("clip", "hint", "sky"):
                b.texs = [base] * 6
            else:
                b.texs = ["%s%d_%d" % (base[:5], tid[0], k) for k in range(6)]
        b.group = rng.randrange(2)
        m.brushes.append(b)
        return b
    M = [len(P[a]) - 1 for a in range(3)]
    style = style or rng.choice(["shell", "shell", "shell", "lattice", "soup", "tworooms"])
    m.style = style
    if style == "soup":
        for _ in range(rng.randrange(*nbrush) + 3):
            i0 = [rng.randrange(0, M[a]) for a in range(3)]
            i1 = [rng.randrange(i0[a] + 1, M[a] + 1) for a in range(3)]
            add(i0, i1, rng.choice(kinds))
    else:
        # shell: six slabs, the outermost layer of the palette
        shellkind = lambda: "sky" if "sky" in kinds and rng.random() < 0.15 else "solid"
        for a in range(3):
            for s in (0, 1):
                i0 = [0, 0, 0]
                i1 = list(M)
                if s == 0:
                    i1[a] = 1
                else:
                    i0[a] = M[a] - 1
                k = shellkind()
                if rng.random() < leak / 2:
                    # a slab with a hole: four boxes around one palette cell
                    u, v = [x for x in range(3) if x != a]
                    hu = rng.randrange(1, M[u] - 1)
                    hv = rng.randrange(1, M[v] - 1)
                    for (r0, r1) in (((0, hu), (0, M[v])), ((hu + 1, M[u]), (0, M[v])), ((hu, hu + 1), (0, hv)), ((hu, hu + 1), (hv + 1, M[v]))):
                        j0, j1 = list(i0), list(i1)
                        j0[u], j1[u] = r0
                        j0[v], j1[v] = r1
                        if j0[u] < j1[u] and j0[v] < j1[v]:
                            add(j0, j1, k)
                    if rng.random() < 0.5:
                        # plug the hole with something
                        j0, j1 = list(i0), list(i1)
                        j0[u], j1[u] = hu, hu + 1
                        j0[v], j1[v] = hv, hv + 1
                        add(j0, j1, rng.choice(kinds))
                elif rng.random() < 0.03:
                    pass
                else:
                    add(i0, i1, k)
        if style == "lattice":
            for x in range(1, M[0] - 1):
                for y in range(1, M[1] - 1):
                    for z in range(1, M[2] - 1):
                        if rng.random() < 0.35:
                            add((x, y, z), (x + 1, y + 1, z + 1), rng.choice(kinds) if rng.random() < 0.5 else "solid")
        else:
            if style == "tworooms":
                a = rng.randrange(3)
                if M[a] >= 4:
                    k = rng.randrange(2, M[a] - 1) if M[a] - 1 > 2 else 1
                    u, v = [x for x in range(3) if x != a]
                    hu = rng.randrange(1, M[u] - 1)
                    hv = rng.randrange(1, M[v] - 1)
                    for (r0, r1) in (((0, hu), (0, M[v])), ((hu + 1, M[u]), (0, M[v])), ((hu, hu + 1), (0, hv)), ((hu, hu + 1), (hv + 1, M[v]))):
                        j0, j1 = [0] * 3, [0] * 3
                        j0[a], j1[a] = k, k + 1 if k + 1 <= M[a] else M[a]
                        j0[u], j1[u] = r0
                        j0[v], j1[v] = r1
                        if j0[u] < j1[u] and j0[v] < j1[v] and j0[a] < j1[a]:
                            add(j0, j1, "solid")
                    if rng.random() < 0.5:
                        j0, j1 = [0] * 3, [0] * 3
                        j0[a], j1[a] = k, k + 1
                        j0[u], j1[u] = hu, hu + 1
                        j0[v], j1[v] = hv, hv + 1
                        add(j0, j1, rng.choice(kinds))
            for _ in range(rng.randrange(*nbrush)):
                i0 = [rng.randrange(0, M[a]) for a in range(3)]
                i1 = [rng.randrange(i0[a] + 1, min(M[a], i0[a] + 3) + 1) for a in range(3)]
                add(i0, i1, rng.choice(kinds))
    if not any(b.kind == "solid" for b in m.brushes):
        add((0, 0, 0), (1, 1, 1), "solid")
    rng.shuffle(m.brushes)
    if rng.random() >= noent:
        for k in range(rng.randrange(nents[0], nents[1] + 1)):
            far = rng.random() < 0.03
            o = []
            for a in range(3):
                i = rng.randrange(1, M[a] - 1) if not far else (M[a] - 1)
                lo, hi = P[a][i], P[a][i + 1]
                v = rng.randrange(lo // 2, hi // 2) * 2 + 1
                if far and a == 0:
                    v = P[a][M[a]] + 9
                o.append(v)
            extra = {}
            if rng.random() < 0.1:
                extra = {rng.choice(["_nofill", "_lightgrid_hint"]): "1"}
            m.ents.append(("info_player_start" if k == 0 else rng.choice(["light", "info_null", "monster_army"]), o, extra))
    return m

def describe(m):
    """what the specification is told about the map"""
    return {
        "brushes": [{"lo": list(b.lo), "hi": list(b.hi), "k": b.kind} for b in m.brushes],
        "ents": [{"p": list(o), "nofill": bool(e)} for _, o, e in m.ents],
    }

def wad2(names, w=16, h=16, palette=False):
    """a WAD2 archive holding a blank texture of each name (with a palette behind each for Half-Life)"""
    import struct
    body = b""
    dirs = []
    base = 12
    for k, n in enumerate(sorted(set(names))):
        nm = n.encode()[:15].ljust(16, b"\0")
        tot = w * h
        ofs = [40, 40 + tot, 40 + tot + tot // 4, 40 + tot + tot // 4 + tot // 16]
        mip = nm + struct.pack("<6I", w, h, *ofs) + bytes([k % 200 + 1]) * (tot + tot // 4 + tot // 16 + tot // 64)
        if palette:
            mip += struct.pack("<H", 256) + bytes((x * 7 + y * 50) % 256 for x in range(256) for y in range(3)) + b"\0\0"
        dirs.append(struct.pack("<iiiBBH16s", base + len(body), len(mip), len(mip), 0x44, 0, 0, nm))
        body += mip
    return b"WAD2" + struct.pack("<ii", len(dirs), base + len(body)) + body + b"".join(dirs)

def texnames(m):
    return {t for b in m.brushes + [x for _, bs, _ in m.bmodels for x in bs] for t in b.texs}
