"""C21: MapFile.tla -- what map dialects can express, and sequences of conversions and edits by maputil and qbsp -convert replayed against it"""
import os, sys, json, re, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, vbuild

INVS = ["Source", "Shape", "Keys", "Planes", "Names", "Infos", "Dialect", "Place", "Reduced", "Refusal", "Matched", "Windings"]
ROT = [("0", 1, 0, 1), ("90", 0, 1, 1), ("180", -1, 0, 1), ("270", 0, -1, 1), ("-90", 0, -1, 1), ("450", 0, 1, 1), ("-180", -1, 0, 1),
       ("36.86989764584402", 4, 3, 5), ("53.13010235415598", 3, 4, 5), ("126.86989764584402", -3, 4, 5), ("-36.86989764584402", 4, -3, 5),
       ("22.619864948040426", 12, 5, 13), ("202.61986494804043", -12, -5, 13), ("-67.38013505195957", 5, -12, 13)]
SCALE = [(1, 1), (1, 1), (1, 1), (-1, 1), (2, 1), (1, 2), (3, 4), (-3, 2), (1, 4), (5, 1), (-1, 3), (1, 16), (0, 1)]
RAT = [(3, 4, 0), (4, -3, 0), (-4, 3, 0), (0, 3, 4), (0, -4, 3), (4, 0, -3), (-3, 0, 4)]   # normals with rational lengths

def dom(n):
    a = [abs(x) for x in n]
    return 2 if a[2] >= a[0] and a[2] >= a[1] else 0 if a[0] >= a[1] else 1

def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

def dot(a, b):
    return sum(x * y for x, y in zip(a, b))

TOL = 16      # 1/256 texel
MC = "SPECIFICATION Spec\nCONSTANT Tol = 4\nCONSTANT R = %d\nCONSTANT Depth = %d\n" + "".join("INVARIANT %s\n" % x for x in ("Geometry", "Shape", "Loads", "Stays", "OnlySheared"))

# ---------------------------------------------------------------- generator
def num(x, y=1):
    return repr(x // y) if x % y == 0 else repr(x / y)

def basis(n):
    """two integer vectors spanning the plane with normal n"""
    c = [v for v in ([0, n[2], -n[1]], [-n[2], 0, n[0]], [n[1], -n[0], 0]) if any(v)]
    return c[0], c[1]

def points(rng, n, o):
    u, v = basis(n)
    k = max(1, 640 // max(abs(x) for x in u + v))
    while True:
        a, b, c, d = (rng.randint(-k, k) for _ in range(4))
        p = [o, [o[j] + a * u[j] + b * v[j] for j in range(3)], [o[j] + c * u[j] + d * v[j] for j in range(3)]]
        if rng.random() < 0.5:      # a square corner
            p[2] = [o[j] + x for j, x in enumerate(cross(n, [p[1][j] - o[j] for j in range(3)]))]
            if rng.random() < 0.3:      # all but square
                w = rng.choice([u, v])
                p[2] = [x + y for x, y in zip(p[2], w)]
        N = cross([x - y for x, y in zip(p[0], p[1])], [x - y for x, y in zip(p[2], p[1])])
        if dot(N, N) < 12000 ** 2 or max(abs(x) for q in p for x in q) > 4000:
            continue
        L = math.sqrt(dot(N, N))
        e = [[x - y for x, y in zip(p[i], p[(i + 1) % 3])] for i in range(3)]
        if L < 0.15 * max(dot(x, x) for x in e):   # no slivers: the points carry the texture's place
            continue
        if dot(N, n) < 0:
            p[1], p[2] = p[2], p[1]
        return p

def texdef(rng, d, n, p, sizes, t):
    """(par, text)"""
    s, tt = (1 if dom(n) == 0 else 0), (1 if dom(n) == 2 else 2)
    sh = [rng.choice([0, 0, 64 * rng.randint(-300, 300), rng.randint(-9000, 9000)]) for _ in range(2)]
    if d == "q":
        r = rng.choice(ROT)
        s0, s1 = rng.choice(SCALE), rng.choice(SCALE)
        return [sh[0], sh[1], r[1], r[2], r[3], s0[0], s0[1], s1[0], s1[1]], \
            "%s %s %s %s %s" % (num(sh[0], 64), num(sh[1], 64), r[0], num(*s0), num(*s1))
    if d == "v":
        while True:
            k = rng.random()
            w = [[0, 0, 0], [0, 0, 0]]
            if k < 0.6:     # no shear
                a, b = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (2, -1), (3, 4)])
                f = rng.choice([1, -1])
                w[0][s], w[0][tt], w[1][s], w[1][tt] = a, b, -b * f, a * f
            if k >= 0.3:
                for j in range(2):
                    for c in range(3):
                        if k >= 0.6 or rng.random() < 0.1:
                            w[j][c] = rng.randint(-2, 2)
            if k < 0.3 or True:
                # along the face, where the axis component does not matter
                if rng.random() < 0.3 and k < 0.6:
                    q = rng.choice([1, -1, 2])
                    w[0] = [x + q * y for x, y in zip(w[0], n)] if max(map(abs, n)) <= 4 else w[0]
            c = cross(w[0], w[1])
            cc = dot(c, n)
            if cc and abs(cc) > 0.1 * math.sqrt(dot(c, c) * dot(n, n)):
                break
        den = rng.choice([1, 1, 2, 5])
        s0, s1 = rng.choice(SCALE[:-1]), rng.choice(SCALE[:-1])
        return w[0] + w[1] + [den] + sh + list(s0) + list(s1), "[ %s %s ] [ %s %s ] %s %s %s" % (
            " ".join(num(x, den) for x in w[0]), num(sh[0], 64), " ".join(num(x, den) for x in w[1]), num(sh[1], 64),
            rng.choice(["0", "0", "45", "-17.5"]), num(*s0), num(*s1))
    if d == "e":
        k = rng.choice([1, 2])
        return [k], "%d %d 0 1 1" % (rng.randint(0, 9), rng.randint(0, 9))
    h2 = n[0] ** 2 + n[1] ** 2
    h, L = int(math.isqrt(h2)) or 1, math.isqrt(h2 + n[2] ** 2)
    k = rng.choice([1, 2, 4])
    while True:
        if rng.random() < 0.5:
            a, b, f = rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([1, -1])
            m = [a, b, 0, -b * f, a * f, 0]
        else:
            m = [rng.randint(-4, 4) for _ in range(6)]
        det = m[0] * m[4] - m[1] * m[3]
        if abs(det) > 0.1 * math.hypot(m[0], m[1]) * math.hypot(m[3], m[4]) and det:
            break
    m[2], m[5] = rng.randint(-200, 200), rng.randint(-200, 200)
    w, hh = sizes.get(t) or (64, 64)
    txt = "( ( %s ) ( %s ) )" % (" ".join(num(x, w * k) for x in m[:3]), " ".join(num(x, hh * k) for x in m[3:]))
    return m + [k, h, L], txt

def gen_brush(rng, dialects, texs, sizes, q2, messy):
    """(faces, text, is brush primitive)"""
    bp = dialects == "b" or "b" in dialects and rng.random() < 0.5
    f8 = rng.choice([1, 1, 4, 8])      # lattice of the box, in 1/8
    lo = [8 * rng.randint(-30, 20) if f8 != 1 else rng.randint(-1600, 1000) for _ in range(3)]
    hi = [x + 8 * rng.randint(4, 20) * 8 // f8 + (0 if f8 != 1 else rng.randint(0, 40)) for x in lo]
    sides = []
    for a in range(3):
        for sgn in (-1, 1):
            n = [0, 0, 0]
            n[a] = sgn
            o = [rng.randint(lo[j], hi[j]) for j in range(3)]
            o[a] = hi[a] if sgn > 0 else lo[a]
            sides.append((n, o))
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            if bp or rng.random() < 0.3:
                n = list(rng.choice(RAT))
            else:
                n = rng.choice([[1, 1, 0], [1, -1, 1], [0, 1, 1], [1, 0, -1], [-1, -1, -1], [2, 1, 0], [1, 2, 3], [-3, 1, 1], [0, -1, 4], [1, 1, 2], [2, 2, 1]])
                n = [x * rng.choice([1, -1]) for x in n]
            # near the corner it cuts off
            o = [((lo[j] + hi[j]) // 2 if n[j] == 0 else (3 * hi[j] + lo[j]) // 4 if n[j] > 0 else (3 * lo[j] + hi[j]) // 4) for j in range(3)]
            if any(all(x * y >= 0 and x * z == w * y for x, y, z, w in zip(n, m, n, m)) for m, _ in sides[6:]) or any(cross(n, m) == [0, 0, 0] for m, _ in sides):
                continue
            sides.append((n, o))
    rng.shuffle(sides)
    if messy and rng.random() < 0.3:    # a second face in a plane, a face without a plane
        n, o = rng.choice(sides)
        k = rng.random()
        sides.append((n, o) if k < 0.4 else ([-x for x in n], o) if k < 0.7 else (n, [x + y * 8 for x, y in zip(o, n)]))
    faces, lines = [], []
    for n, o in sides:
        p = points(rng, n, list(o))
        if messy and rng.random() < 0.04:
            p[2] = [2 * p[1][j] - p[0][j] for j in range(3)]
            if max(map(abs, p[2])) > 4000:
                p[2] = list(p[0])
        t = rng.choice(texs)
        d = "b" if bp else rng.choice([x for x in dialects if x != "b"])
        try:
            par, txt = texdef(rng, d, n, p, sizes, t)
        except RecursionError:
            raise
        info, itxt, free = [], "", False
        if rng.random() < (0.6 if q2 else 0.25):
            c = rng.choice(["0", "1", "134217728", "2", "32", "16"]) if q2 else rng.choice(["0", "1", "134217729"])
            fl = rng.choice([0, 0, 1, 2, 8, 16, 32, 128, 256, 512, 640, 33, 65540, 1073741824]) if q2 else rng.choice([0, 1, 128, 256, 131072])
            v = rng.choice([0, 0, 100, -5, 2000])
            k = rng.choice([1, 2, 3, 3, 3])
            info = [c, str(fl if k > 1 else 0), str(v if k > 2 else 0)]
            itxt = " " + " ".join(info[:k])
            free = q2 and bool(int(info[1]) & (128 | 256 | 512))
        gap = rng.choice([" ", "  ", "\t"])
        pt = gap.join("(%s%s%s)" % (gap, gap.join(num(x, 8) for x in q), gap) for q in p)
        name = '"%s"' % t if re.search(r"[\s]", t) or t.startswith((";", "//")) or t == "" or rng.random() < 0.05 else t
        if bp:
            line = "%s%s%s %s%s" % (pt, gap, txt, name, itxt)
        else:
            line = "%s%s%s %s%s" % (pt, gap, name, txt, itxt)
            if d == "e":
                line += " //TX%d" % par[0]
        if d != "e" and rng.random() < 0.1:
            line += rng.choice([" // comment", " ; comment", " //TX", "\t"])
        faces.append({"p": p, "n": n, "t": t, "d": d, "par": par, "i": info, "free": free})
        lines.append(line)
    if bp:
        txt = "{\n%s{\n%s\n}\n}\n" % (rng.choice(["brushDef\n", "brushDef\n", ""]), "\n".join(lines))
    else:
        txt = "{\n%s\n}\n" % "\n".join(lines)
    return faces, txt

WORDS = ["classname", "origin", "angle", "message", "_light", "target", "k1", "k2", "spaced key", "wad"]
VALUES = ["0 0 24", "90", "hello world", "", "a // b", "; not a comment", "\\n line", "{ brace }", "1.5", "x=\\\"q\\\"" if False else "x=q", "caf\u00e9", "{", "}"]

def gen_map(rng, dialects, q2, messy, sizes, texs):
    ents, text = [], ""
    for e in range(rng.randint(1, 4)):
        keys = [["classname", "worldspawn" if e == 0 else rng.choice(["func_wall", "light", "info_player_start", "func_door"]) + str(rng.randint(0, 3))]]
        for _ in range(rng.randint(0, 5)):
            k = rng.choice(WORDS[1:])
            if any(x[0] == k for x in keys) and not messy:
                continue
            keys.append([k, rng.choice(VALUES)])
        if e and messy and rng.random() < 0.1:
            keys = []
        bs, btxt = [], []
        for _ in range(rng.randint(1 if e == 0 else 0, 3)):
            f, t = gen_brush(rng, dialects, texs, sizes, q2, messy)
            bs.append(f)
            btxt.append(t)
        if messy and rng.random() < 0.1:
            bs.append([])
            btxt.append("{\n}\n")
        lines = ['"%s%s" "%s"\n' % (k, " " if messy and rng.random() < 0.05 else "", v) for k, v in keys]
        if messy and rng.random() < 0.1 and btxt:      # keys after brushes
            body = "".join(btxt) + "".join(lines)
        else:
            body = "".join(lines) + "".join(btxt)
        text += "%s{\n%s}\n" % (rng.choice(["", "// entity\n", "\n"]), body)
        ents.append({"keys": keys, "brushes": bs})
    return ents, text

# ---------------------------------------------------------------- independent reader of written maps
class Bad(Exception):
    pass

def tokens(line):
    out, i = [], 0
    while i < len(line):
        c = line[i]
        if c in " \t\r":
            i += 1
        elif c == '"':
            j = i + 1
            while line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            out.append(line[i + 1:j])
            i = j + 1
        elif line.startswith("//TX", i):
            out.append(line[i:].split()[0])
            break
        elif line.startswith("//", i) or c == ";":
            break
        else:
            j = i
            while j < len(line) and line[j] not in " \t\r":
                j += 1
            out.append(line[i:j])
            i = j
    return out

def eighth(s):
    v = float(s) * 8
    if v != round(v):
        return 10 ** 8 + (hash(s) % 1000)
    return int(v)

def c256(x):
    x = x * 256
    return int(max(-2e9, min(2e9, round(x)))) if math.isfinite(x) else 2000000000

def measure(d, p, a, tx, size):
    """texture coordinates at the plane points"""
    P = [[x / 8.0 for x in q] for q in p]
    N = cross([x - y for x, y in zip(P[0], P[1])], [x - y for x, y in zip(P[2], P[1])])
    L = math.sqrt(dot(N, N))
    N = [x / L for x in N]
    if d == "q":
        k = dom(N)
        s, t = (1 if k == 0 else 0), (1 if k == 2 else 2)
        r = math.radians(a[2])
        c, si = math.cos(r), math.sin(r)
        s0, s1 = a[3] or 1, a[4] or 1
        return [[(c * q[s] + si * q[t]) / s0 + a[0], (si * q[s] - c * q[t]) / s1 + a[1]] for q in P]
    if d == "v":
        return [[dot(a[0:3], q) / a[9] + a[3], dot(a[4:7], q) / a[10] + a[7]] for q in P]
    if d == "e":
        u, v = ([128, 0], [0, -128])
        return [[0, 0], v, u] if tx == 1 else [[0, 0], u, v]
    N = [0 if abs(x) < 1e-6 else x for x in N]
    ry, rz = -math.atan2(N[2], math.hypot(N[0], N[1])), math.atan2(N[1], N[0])
    X = [-math.sin(rz), math.cos(rz), 0]
    Y = [-math.sin(ry) * math.cos(rz), -math.sin(ry) * math.sin(rz), -math.cos(ry)]
    w, h = size or (64, 64)
    return [[w * (a[0] * dot(q, X) + a[1] * dot(q, Y) + a[2]), h * (a[3] * dot(q, X) + a[4] * dot(q, Y) + a[5])] for q in P]

def parse_face(t, bp, sizes):
    i = 0
    def take(s):
        nonlocal i
        if t[i] != s:
            raise Bad("expected %s in %r" % (s, t))
        i += 1
    p = []
    for _ in range(3):
        take("(")
        p.append([eighth(x) for x in t[i:i + 3]])
        i += 3
        take(")")
    tx = 0
    if bp:
        a = []
        take("(")
        for _ in range(2):
            take("(")
            a += [float(x) for x in t[i:i + 3]]
            i += 3
            take(")")
        take(")")
        name = t[i]
        i += 1
        d = "b"
    else:
        name = t[i]
        i += 1
        if t[i] == "[":
            a = []
            for _ in range(2):
                take("[")
                a += [float(x) for x in t[i:i + 4]]
                i += 4
                take("]")
            a += [float(x) for x in t[i:i + 3]]
            i += 3
            d = "v"
        else:
            a = [float(x) for x in t[i:i + 5]]
            if len(a) != 5:
                raise Bad("short face %r" % t)
            i += 5
            d = "q"
    rest = t[i:]
    if rest and rest[-1] in ("//TX1", "//TX2"):
        if d == "q":
            d, tx = "e", int(rest[-1][4])
        rest = rest[:-1]
    elif rest and rest[-1].startswith("//"):
        rest = rest[:-1]
    if len(rest) not in (0, 3):
        raise Bad("surface info %r" % rest)
    if any(not math.isfinite(x) for x in a):
        raise Bad("numbers %r" % t)
    try:
        uv = [[c256(x) for x in r] for r in measure(d, p, a, tx, sizes.get(name))]
    except (ZeroDivisionError, ValueError):
        uv = [[2000000000] * 2] * 3
    return {"p": p, "t": name, "d": d, "uv": uv, "sh": [c256(x) for x in a[:2]] if d in "qe" else [0, 0], "i": rest}

def read_map(path, sizes):
    lines = [tokens(l) for l in open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")]
    lines = [l for l in lines if l]
    raw = [l for l in lines]
    ents, depth, bp = [], 0, False
    for t in raw:
        if t == ["{"]:
            depth += 1
            if depth == 1:
                ents.append({"keys": [], "brushes": []})
            elif depth == 2:
                ents[-1]["brushes"].append([])
                bp = False
        elif t == ["}"]:
            depth -= 1
        elif t == ["brushDef"]:
            bp = True
        elif depth == 1 and len(t) == 2:
            ents[-1]["keys"].append(t)
        elif depth >= 2 and t[0] == "(":
            ents[-1]["brushes"][-1].append(parse_face(t, bp, sizes))
        else:
            raise Bad("line %r" % t)
    if depth:
        raise Bad("braces")
    return ents

# ---------------------------------------------------------------- running
def lua(path, body):
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(body)
    return path

FACES = "for _, e in ipairs(entities) do for _, b in ipairs(e.brushes or {}) do for _, s in ipairs(b) do %s end end end\n"

def lstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')

def one(args):
    """a case: a map and a chain of tool runs over it"""
    prog, seed, idx, tmp, kind = args
    import random
    rng = random.Random(seed * 100003 + idx)
    d = os.path.join(tmp, "c%d" % idx)
    q2 = rng.random() < 0.4
    messy = rng.random() < 0.3
    base = os.path.join(d, "q2/baseq2" if q2 else "q1/id1")
    os.makedirs(os.path.join(base, "maps"))
    os.makedirs(os.path.join(base, "textures"))
    texs = ["wall1", "e1u1/floor", "*water", "{fence", "two words", "ab", "BIG", "+0anim"] if q2 else ["wall1", "floor_2", "*lava", "{fence", "two words", "ab", "BIG", "(x)", "+0anim"]
    sizes, conv = {}, {}
    for t in texs:
        k = rng.random()
        if " " in t or k < 0.3:
            continue
        w, h = rng.choice([16, 64, 128, 100]), rng.choice([16, 64, 32, 256])
        if k < 0.4:      # metadata without a size
            meta = {"value": 0}
        else:
            sizes[t] = (w, h)
            meta = {"width": w, "height": h}
        for r in ([os.path.join(base, "textures", t)] if q2 else [os.path.join(base, t), os.path.join(base, "maps", t)]):
            os.makedirs(os.path.dirname(r), exist_ok=True)
            json.dump(meta, open(r + ".wal_json", "w"))
    nosize = [t for t in texs if t not in sizes and os.path.exists(os.path.join(base, "textures" if q2 else "", t + ".wal_json"))]
    first = "qbsp" if kind == "qbsp" else "maputil"
    dialects = rng.choice(["q", "v", "e", "qve", "qve", "qv"] + (["b", "b", "b", "qvb"] if kind == "qbsp" else []))
    if "b" in dialects:     # a texture whose size is given as zero has no place in brush primitives
        texs = [t for t in texs if t not in nosize]
    src, text = gen_map(rng, dialects, q2, messy and kind != "qbsp", sizes, texs)
    cur = os.path.join(base, "maps", "m0.map")
    with open(cur, "w", encoding="utf-8") as f:
        f.write(text)
    steps, cmds, bad = [], [], None
    tool = first
    has_b = any(f["d"] == "b" for e in src for b in e["brushes"] for f in b)
    moved = False      # conversions done: the numbers of the source no longer describe the faces
    nseg = rng.randint(1, 3)
    stop = swapped = False
    for seg in range(nseg):
        if stop:
            break
        if tool == "qbsp":
            fmt = rng.choice(["quake", "quake2", "valve", "bp"])
            if any(t in nosize for e in src for b in e["brushes"] for f in b for t in [f["t"]]) and fmt == "bp":
                fmt = "valve"
            out = os.path.join(base, "maps", "s%d-%s.map" % (seg, fmt))
            cmd = [prog["qbsp"], "-convert", fmt] + (["-q2bsp"] if q2 else []) + [cur, os.path.join(base, "maps", "s%d.bsp" % seg)]
            rc, o = vlib.run(cmd, d, 60)
            cmds.append(cmd)
            if rc != 0 or not os.path.exists(out):
                bad = ("qbsp -convert %s failed (rc %d)" % (fmt, rc), o)
                break
            dd = {"quake": "q", "quake2": "q", "valve": "v", "bp": "b"}[fmt]
            try:
                steps.append({"op": "convert", "arg": dd, "game": True, "keep": False, "fresh": True, "out": read_map(out, sizes)})
            except (Bad, IndexError, ValueError) as x:
                bad = ("qbsp -convert %s wrote a map that cannot be read: %s" % (fmt, x), o)
                break
            has_b = dd == "b"
            cur, moved = out, True
        else:
            game = rng.random() < 0.6
            cmd = [prog["maputil"], cur]
            if game:
                cmd += ["--game", "quake2" if q2 else "quake"]
            if has_b:
                rc, o = vlib.run(cmd + ["--save", os.path.join(d, "x.map")], d, 60)
                cmds.append(cmd)
                if rc == 0 or rc < 0:
                    bad = ("maputil did not refuse brush primitives (rc %d)" % rc, o)
                break
            plan = []
            for k in range(rng.randint(1, 4)):
                o = rng.choice(["convert"] * 6 + ["save", "strip", "rename", "info", "key", "swap", "drop", "retexture", "move", "commit", "commit", "query", "winding", "refuse"])
                if o == "move" and moved:
                    o = "commit"
                out = os.path.join(base, "maps", "s%d_%d.map" % (seg, k))
                st = {"op": o, "file": out}
                scr = os.path.join(d, "s%d_%d.lua" % (seg, k))
                if o == "convert":
                    st["arg"] = rng.choice("qv")
                    st["game"], st["keep"] = game, True
                    cmd += ["--convert", {"q": "quake", "v": "valve"}[st["arg"]]]
                    moved = True
                elif o == "refuse":
                    st["arg"] = rng.choice("eb")
                    cmd += ["--convert", {"e": "etp", "b": "bp"}[st["arg"]], "--save", out]
                    plan.append(st)
                    stop = True
                    break
                elif o == "strip":
                    cmd += ["--strip_extended_info"]
                elif o == "query":
                    st["arg"], st["arg2"] = rng.choice([("classname", "light1"), ("classname", "worldspawn"), ("angle", "90"), ("message", "hello world"), ("k1", "")])
                    st["arg2"] = st["arg2"] or "1.5"
                    cmd += ["--query", "return entity[%s] == %s" % (lstr(st["arg"]), lstr(st["arg2"]))]
                elif o == "winding":
                    cmd += ["--script", lua(scr, "for i, e in ipairs(entities) do for j, b in ipairs(e.brushes or {}) do for k, s in ipairs(b) do local w = create_winding(s, b, 8192) "
                                            "io.write('WINDING ', i, ' ', j, ' ', k) for _, p in ipairs(w or {}) do io.write(' ', p[1], ' ', p[2], ' ', p[3]) end io.write('\\n') end end end io.flush()\n")]
                else:
                    if o == "rename":
                        st["arg"], st["arg2"] = rng.choice(texs), rng.choice(["renamed", "new name", "wall1"])
                        body = FACES % ("if s.texture == %s then s.texture = %s end" % (lstr(st["arg"]), lstr(st["arg2"])))
                    elif o == "info":
                        st["arg"] = rng.choice([[], ["1", "4", "-7"], ["134217728", "0", "55"]])
                        body = FACES % ("s.info = nil" if not st["arg"] else "s.info = { contents = %s, flags = %s, value = %s }" % tuple(st["arg"]))
                    elif o == "key":
                        st["e"] = 1
                        st["arg"] = [rng.choice(["k1", "newkey", "_light"]), rng.choice(["v", "a b", ""])]
                        body = "local d = entities[1].dict or {} entities[1].dict = d local done = false for _, kv in ipairs(d) do if kv[1] == %s then kv[2] = %s done = true end end if not done then d[#d + 1] = { %s, %s } end\n" % (
                            lstr(st["arg"][0]), lstr(st["arg"][1]), lstr(st["arg"][0]), lstr(st["arg"][1]))
                    elif o == "swap":
                        st["e"], st["f"] = 1, -1
                        swapped = True
                        body = "entities[1], entities[#entities] = entities[#entities], entities[1]\n"
                    elif o == "drop":
                        st["e"], st["b"] = 1, 1
                        body = "if entities[1].brushes then table.remove(entities[1].brushes, 1) end\n"
                    elif o == "retexture":
                        par, txt = texdef(rng, "v", [3, 2, 7], None, sizes, "ab")
                        st["arg"] = par
                        den = par[6]
                        body = FACES % ("s.raw = { valve = { axis = { { %s }, { %s } }, shift = { %s, %s }, rotate = 0, scale = { %s, %s } } }" % (
                            ", ".join(num(x, den) for x in par[:3]), ", ".join(num(x, den) for x in par[3:6]), num(par[7], 64), num(par[8], 64), num(par[9], par[10]), num(par[11], par[12])))
                        moved = False if not moved else moved
                    elif o == "move":
                        st["arg"] = [8 * rng.randint(-8, 8) for _ in range(3)]
                        body = FACES % ("for k = 1, 3 do s.plane_points[k] = { s.plane_points[k][1] + %d, s.plane_points[k][2] + %d, s.plane_points[k][3] + %d } end" % tuple(x // 8 for x in st["arg"]))
                    else:
                        body = ""
                        if o == "commit":
                            st["op"], st["script"] = "save", True
                    if o != "save":
                        cmd += ["--script", lua(scr, body + "commit_map()\n")]
                cmd += ["--save", out]
                plan.append(st)
            rc, o = vlib.run(cmd, d, 60)
            cmds.append(cmd)
            want_fail = plan[-1]["op"] == "refuse"
            if rc < 0 or rc > 1 or (rc != 0 and not want_fail) or "can't execute" in o or "can't load" in o:
                bad = ("maputil failed (rc %d)" % rc, o)
                break
            # what the scripts and queries printed, in order
            o = re.sub("\x1b\\[[0-9]*m", "", o)
            queries = re.split(r"^query: .*$", o, flags=re.M)[1:]
            wl = [l.split()[1:] for l in o.split("\n") if l.startswith("WINDING ")]
            try:
                for q, st in enumerate(plan):
                    f = st.pop("file")
                    st["fresh"] = q == 0 or st["op"] not in ("convert", "save", "strip", "query", "winding", "refuse") or st.pop("script", False)
                    if st["op"] == "refuse":
                        if rc == 0:
                            st = {"op": "convert", "arg": st["arg"], "game": game, "keep": True, "fresh": q == 0, "out": read_map(f, sizes)}
                        else:
                            st = {"op": "refused", "arg": st["arg"], "fresh": q == 0}
                        steps.append(st)
                        continue
                    out = read_map(f, sizes)
                    if st["op"] == "swap":
                        st["f"] = len(out)
                    if st["op"] == "drop" and not any(s for s in steps) and not src[0]["brushes"]:
                        pass
                    if st["op"] == "query":
                        st["out"] = re.findall(r"^MATCHED: (.*) @ ", queries.pop(0), flags=re.M)
                        steps.append(st)
                        st = {"op": "save", "fresh": False}
                    elif st["op"] == "winding":
                        n = sum(len(b) for e in out for b in e["brushes"])
                        res = [[[None for _ in b] for b in e["brushes"]] for e in out]
                        for l in wl[:n]:
                            i, j, k = (int(float(x)) - 1 for x in l[:3])
                            v = [float(x) * 8 for x in l[3:]]
                            v = [round(x) if abs(x - round(x)) < 0.01 else 10 ** 7 for x in v]
                            res[i][j][k] = [v[q:q + 3] for q in range(0, len(v), 3)]
                        wl = wl[n:]
                        if any(w is None for e in res for b in e for w in b):
                            raise Bad("windings missing")
                        st["out"] = res
                        steps.append(st)
                        st = {"op": "save", "fresh": False}
                    st["out"] = out
                    steps.append(st)
                    cur = f
            except (Bad, IndexError, ValueError, OSError) as x:
                bad = ("maputil wrote a map that cannot be read: %r" % x, o)
                break
        tool = "maputil" if swapped else rng.choice(["qbsp", "maputil"]) if kind == "mix" or kind == "qbsp" else "maputil"
    case = {"src": src, "sizes": [[t, w, h] for t, (w, h) in sorted(sizes.items())], "steps": steps}
    return case, cmds, bad, text, d

def check(c):
    prog = c.build("maputil", "qbsp")
    r = vlib.tlc("MapFileMC", MC % ((1, 3) if c.quick else (2, 4)), workers=8, timeout=800)
    c.add_tlc(r)
    if not r.ok:
        raise vlib.CheckError("MapFileMC: %s\n%s" % (r.violated, r.out[-3000:]))
    n = c.n(300, 4000)
    cases, meta, ops = [], [], {}
    for case, cmds, bad, text, d in vlib.pmap(one, [(prog, c.seed, i, c.scratch, ("maputil", "qbsp", "mix")[i % 3]) for i in range(n)]):
        if bad:
            c.violation("C21 " + bad[0], [os.path.join(r, x) for r, _, f in os.walk(d) for x in f if x == "m0.map"],
                        data={"commands": [" ".join(x) for x in cmds], "output": bad[1][-6000:]})
        cases.append(case)
        meta.append((cmds, d))
        for s in case["steps"]:
            k = s["op"] + (" " + s["arg"] if s["op"] in ("convert", "refused") else "")
            ops[k] = ops.get(k, 0) + 1
    c.cov["maps"] = n
    c.cov["faces"] = sum(len(b) for x in cases for e in x["src"] for b in e["brushes"])
    c.cov["operations"] = ops
    c.sample({"commands": [" ".join(x) for x in meta[0][0]], "steps": [s["op"] for s in cases[0]["steps"]]})
    for k, inv, trace in vlib.tlc_cases(c, "MapFileTrace", INVS, cases, consts="CONSTANT Tol = %d\n" % TOL, weight=lambda x: len(json.dumps(x))):
        i = vlib.tlc_values(trace, "at")
        i = int(i[-1]) - 1 if i else 0
        st = cases[k]["steps"][i - 1] if i else None
        c.violation("C21 %s: after operation %d of %s (%s)\n%s" % (inv, i, [s["op"] for s in cases[k]["steps"]], {x: y for x, y in (st or {}).items() if x != "out"},
                    "\n".join(" ".join(x) for x in meta[k][0])),
                    [os.path.join(r, x) for r, _, f in os.walk(meta[k][1]) for x in f if x.endswith((".map", ".lua"))], data={"case": cases[k], "trace": trace})
    c.assumptions += ["plane points lie within 512 units, are multiples of 1/8 and span at least a sliver-free triangle", "texture coordinates agree within 1/16 texel",
                      "rotations are multiples of right angles and angles of Pythagorean triangles, so that the expected place is exact"]

if __name__ == "__main__":
    vlib.main(check, "C21")
