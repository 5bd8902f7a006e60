"""C15: BSP files are preserved by loading, converting and writing them, against BspFile.tla"""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, bspfmt

NAMES = {"bsp29": "bsp29", "hl": "hl", "bsp2": "bsp2", "bsp2rmq": "bsp2rmq", "hexen2": "h2", "hexen2bsp2": "h2bsp2", "hexen2bsp2rmq": "h2bsp2rmq",
         "q2bsp": "q2", "qbism": "qbism"}
Q1 = ["bsp29", "hl", "bsp2", "bsp2rmq"]
H2 = ["hexen2", "hexen2bsp2", "hexen2bsp2rmq"]
Q2 = ["q2bsp", "qbism"]
LUMPS = ["planes", "vertexes", "nodes", "texinfo", "faces", "clipnodes", "leafs", "marksurfaces", "edges", "surfedges", "models", "leafbrushes",
         "brushes", "brushsides", "areas", "areaportals"]
RANGE = {"i": (-2**31, 2**31 - 1), "I": (0, 2**32 - 1), "h": (-2**15, 2**15 - 1), "H": (0, 2**16 - 1), "B": (0, 255)}
EDGES = [0, 1, -1, 2, -14, -15, -16, 127, 128, 255, 256, 32766, 32767, 32768, -32767, -32768, -32769, 65519, 65520, 65521, 65534, 65535, 65536,
         2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**24 + 1, -2**24]
FEDGES = [0.0, 1.5, -1.5, 0.5, -0.5, 1e-30, -1e-30, 32767.0, 32767.5, 32766.5, 32768.0, -32768.0, -32768.5, -32769.0, -32767.5, 65535.0, 1e9, -1e9, 16777217.0, 3e38]

def expand(fmt):
    # "2h3f" -> list of single codes; 32s stays one
    out, k = [], ""
    for ch in fmt:
        if ch.isdigit():
            k += ch
        elif ch == "s":
            out.append(k + "s")
            k = ""
        else:
            out += [ch] * int(k or 1)
            k = ""
    return out
def value(rng, code, narrow, wild):
    if code.endswith("s"):
        n = int(code[:-1])
        return bytes(rng.randrange(256) for _ in range(n)) if rng.random() < 0.5 else (b"e1u1/floor" + b"\0" * n)[:n]
    if code == "f":
        if wild:
            return rng.choice(FEDGES)
        return float(rng.randrange(-4096, 4097)) if narrow or rng.random() < 0.5 else rng.randrange(-100000, 100000) / 8.0
    lo, hi = RANGE[code]
    if wild:
        return rng.choice([v for v in EDGES if lo <= v <= hi])
    if narrow:
        return max(lo, min(hi, rng.choice([0, 1, 3, 77, 12345] + ([-1, -7] if narrow != "positive" else []))))
    return rng.choice([rng.randint(lo, hi), rng.choice([v for v in EDGES if lo <= v <= hi])])
# the fields whose value every format can hold whatever it is: they may be anything even where the rest stays small
FREE = {"planes": range(0, 5), "vertexes": range(0, 3), "texinfo": range(0, 30), "surfedges": range(1), "models": range(0, 30), "brushes": range(3), "areas": range(2), "areaportals": range(2)}

def texlump(rng):
    n = rng.randrange(0, 5)
    if n == 0:
        return rng.choice([b"", struct.pack("<i", 0)])
    ts = []
    for i in range(n):
        if rng.random() < 0.2:
            ts.append(None)
            continue
        name = rng.choice([b"*lava", b"sky1", b"wall", b"x" * 15, b"y" * 16, b"{fence"])
        name = (name + b"\0" * 16)[:16]
        w, h = rng.choice([(0, 0), (2, 1), (4, 2), (1, 1), (0xffffffff, 3)])
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 13])))
        offs = rng.choice([(0, 0, 0, 0), (40, 44, 45, 46), (-1, -2, 7, 2**31 - 1)])
        ts.append(name + struct.pack("<II4i", w, h, *offs) + body)
    order = [i for i in range(n) if ts[i] is not None]
    if rng.random() < 0.3:
        rng.shuffle(order)
    at, data = {}, b""
    base = 4 + 4 * n
    for i in order:
        if data and rng.random() < 0.15 and len(at):
            at[i] = rng.choice(sorted(at.values()))  # two textures may share one image
            continue
        if rng.random() < 0.7:
            data += b"\0" * (-len(data) % 4)
        at[i] = base + len(data)
        data += ts[i]
    return struct.pack("<i", n) + b"".join(struct.pack("<i", at.get(i, -1)) for i in range(n)) + data
def vislump(rng, q2):
    if rng.random() < 0.3:
        return b""
    bits = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 9])))
    if not q2:
        return bits
    n = rng.randrange(1, 4)
    return struct.pack("<i", n) + b"".join(struct.pack("<i", rng.choice([4 + 8 * n + k for k in range(5)] + [-1, 2**31 - 1])) for _ in range(2 * n)) + bits
def make(rng):
    fmt = rng.choice(Q1 + Q1 + H2 + Q2 + Q2 + Q2)
    f = NAMES[fmt]
    codes = bspfmt.FORMATS[f][2]
    mode = rng.choice(["any", "narrow", "narrow", "one", "one", "one"])
    lumps = {}
    counts = {}
    spots = []
    for l in LUMPS:
        if l not in codes:
            continue
        n = rng.choice([0, 1, 2, 2, 3]) if l != "models" else rng.choice([1, 1, 2, 3])
        cs = expand(codes[l])
        recs = []
        for _ in range(n):
            r = []
            for j, ch in enumerate(cs):
                free = j in FREE.get(l, ()) and not (l in ("models",) and fmt in H2 and 13 <= j <= 16 and False)
                r.append(value(rng, ch, None if free or mode == "any" else "positive" if l in ("leafs", "edges", "marksurfaces", "brushsides") or (l == "nodes" and j > 8) else "yes", False))
                spots.append((l, len(recs), j))
            recs.append(r)
        lumps[l] = recs
    if mode == "one" and spots:
        l, k, j = rng.choice([s for s in spots if s[0] not in ("planes", "vertexes", "surfedges")] or spots)
        lumps[l][k][j] = value(rng, expand(codes[l])[j], None, True)
    models = rng.random() < 0.12 and fmt not in Q2 and fmt != "hl"
    if models:
        # as many models as would also do for the other game: their numbers have to make sense then
        n = rng.choice([4, 5])
        noclip = rng.random() < 0.4
        lumps["clipnodes"] = [] if noclip else lumps["clipnodes"] or [[0, -1, -2]]
        lumps["nodes"] = lumps["nodes"] or [[0, -1, -1, -8, -8, -8, 8, 8, 8, 0, 0]]
        lumps["leafs"] = lumps["leafs"] or [[-2, -1, -8, -8, -8, 8, 8, 8, 0, 0, 0, 0, 0, 0]]
        h = 8 if fmt in H2 else 4
        recs = []
        for k in range(n):
            lo = [float(-rng.randrange(1, 999)) for _ in range(3)]
            box = lo + [-v for v in lo] if rng.random() < 0.5 else [v + 2000.0 for v in lo] + [4000.0 - v for v in lo]
            clip = lambda: 0 if noclip else rng.randrange(-6, len(lumps["clipnodes"]))
            first = rng.randrange(0, len(lumps["faces"]) + 1)
            recs.append(box + [0.0] * 3 + [rng.randrange(-1, len(lumps["nodes"]))] + [clip() for _ in range(h - 1)]
                        + [rng.randrange(0, len(lumps["leafs"])), first, rng.randrange(0, len(lumps["faces"]) - first + 1)])
        lumps["models"] = recs
    q2 = fmt in Q2
    lumps["entities"] = rng.choice([b"", b"\0", b"{\n\"classname\" \"worldspawn\"\n}\n\0", b"{ }", b"\"caf\xe9\" \x80\xff\0", b"a\0\0", b"{}\n\0", b"abc\0def\0", b"\0\0\0"])
    lumps["lighting"] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 12])))
    lumps["visibility"] = vislump(rng, q2)
    if q2:
        lumps["pop"] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 4, 7])))
    else:
        lumps["textures"] = texlump(rng)
    bspx = {}
    for name in rng.sample(["RGBLIGHTING", "LMSHIFT", "FACENORMALS", "Q", "x" * 23, "LIGHTGRID_OCTREE", "caf\xe9"], rng.choice([0, 0, 1, 2, 4])):
        bspx[name] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 11])))
    return fmt, layout(rng, f, lumps, bspx), models
def layout(rng, f, lumps, bspx):
    """like bspfmt.build, but with the lumps in any order"""
    magic, order, _ = bspfmt.FORMATS[f]
    head = len(magic) + 8 * len(order)
    body, at = b"", {}
    seq = list(order)
    if rng.random() < 0.5:
        rng.shuffle(seq)
    for n in seq:
        p = bspfmt.pack(f, n, lumps.get(n, b""))
        at[n] = (head + len(body), len(p)) if p or rng.random() < 0.7 else (0, 0)
        body += p + b"\0" * (-len(p) % 4)
    out = magic + b"".join(struct.pack("<ii", *at[n]) for n in order) + body
    if bspx:
        end = max(a + l for a, l in at.values())
        out = out[:(end + 3) & ~3]
        t = len(out) + 8 + 32 * len(bspx)
        d, b = b"", b""
        names = list(bspx)
        rng.shuffle(names)
        for k in names:
            v = bspx[k]
            d += struct.pack("<24sii", k.encode("latin-1"), t + len(b), len(v))
            b += v + b"\0" * (-len(v) % 4)
        if rng.random() < 0.3:
            b = b.rstrip(b"\0") if not v else b[:len(b) - (-len(v) % 4)]
            b += b"\0" * max(0, sum(0 for _ in ()) )
            need = max((struct.unpack("<ii", d[32 * i + 24:32 * i + 32]) for i in range(len(names))), key=lambda x: x[0] + x[1])
            b += b"\0" * max(0, need[0] + need[1] - t - len(b))
        out += b"BSPX" + struct.pack("<i", len(bspx)) + d + b
    return out
# fields that are narrower in another format of the game, at and just beyond what it can hold
LIMITS = {"h": [-32769, -32768, 32767, 32768, 65535, 65536, -1], "H": [-1, 0, 65535, 65536, 32768], "c": [-17, -16, -15, -1, 0, 32767, 32768, 65519, 65520, 65521, 65535, 65536],
          "f": [-32768.0, -32768.5, -32769.0, 32767.0, 32767.5, 32766.5, 32768.0, -32767.5, 0.5, -0.5, 0.99999994, -1e-30, 1e-30, 65536.0, -1e9], "i": [2**31 - 1, 2**31, 2**32 - 1]}
def edges(rng):
    for srcs, dsts in ((["bsp2", "hexen2bsp2"], ["bsp29", "hl", "hexen2"]), (["bsp2rmq", "hexen2bsp2rmq"], ["bsp29", "hl", "hexen2"]), (["bsp2", "hexen2bsp2"], ["bsp2rmq"]),
                       (["qbism"], ["q2bsp"])):
        a, b = bspfmt.FORMATS[NAMES[srcs[0]]][2], bspfmt.FORMATS[NAMES[dsts[0]]][2]
        for l in LUMPS:
            if l not in a or l == "models":
                continue
            for j, (x, y) in enumerate(zip(expand(a[l]), expand(b[l]))):
                if x == y:
                    continue
                kind = "f" if x == "f" else "c" if l == "clipnodes" else y
                for v in LIMITS[kind]:
                    if x != "f" and not RANGE[x][0] <= v <= RANGE[x][1]:
                        continue
                    src = rng.choice(srcs)
                    codes = bspfmt.FORMATS[NAMES[src]][2]
                    cs = expand(codes[l])
                    r = [value(rng, ch, "positive", False) for ch in cs]
                    if l == "nodes" or l == "leafs":
                        r = [0.0 if ch == "f" else q for ch, q in zip(cs, r)]
                    r[j] = v
                    lumps = {"models": [[0] * len(expand(codes["models"]))], l: [r], "entities": b"{}\0", "lighting": b"", "visibility": b""}
                    yield src, layout(rng, NAMES[src], lumps, {}), False, [rng.choice(dsts), rng.choice([src] + dsts)]
def target(rng, fmt, models):
    fam = Q2 if fmt in Q2 else Q1 + H2
    k = rng.random()
    if k < 0.35:
        return fmt
    if k < 0.9:
        return rng.choice(fam)
    return "mbsp" if k < 0.93 else rng.choice(Q1 + H2 + Q2) if not models else rng.choice(fam)

def check(c):
    rng = c.rng
    exe = c.build("bspconv", variant="asan")["bspconv"]
    d = c.dir("bsp")
    was = b"an older file that has to survive" + bytes(range(9))
    plans, lines = [], []
    todo = list(edges(rng)) + [make(rng) + (None,) for _ in range(c.n(1300, 11000))]
    for k, (fmt, b, models, goals) in enumerate(todo):
        src = os.path.join(d, "%d.bsp" % k)
        open(src, "wb").write(b)
        ops = []
        for j in range(len(goals) if goals else rng.choice([1, 2, 3])):
            out = os.path.join(d, "%d.%d.bsp" % (k, j))
            open(out, "wb").write(was)
            g = target(rng, fmt, models)
            if ops and rng.random() < 0.5:
                g = fmt
            if goals:
                g = goals[j]
            ops.append([g, out])
        plans.append((fmt, b, models, src, ops))
    # how a case goes on depends on what was refused, so the cases are driven one answer at a time
    import subprocess
    f = os.path.join(c.scratch, "asan.txt")
    def drive(part):
        p = None
        def ask(line):
            p.stdin.write(line.encode() + b"\n")
            p.stdin.flush()
            return p.stdout.readline().decode("latin-1").strip()
        res = []
        for plan in part:
            if p is None or p.poll() is not None:
                err = open(f + str(id(part)), "wb")
                p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=d)
            fmt, b, models, src, ops = plan
            cur, out = fmt, []
            try:
                seen = ask("load " + src)
                loaded = True
                for g, path in ops:
                    a = ask("write %s" % path if g == cur and loaded and (len(out) + len(b)) % 2 else "conv %s %s" % (g, path))
                    out.append((g, seen, a, open(path, "rb").read()))
                    if not a:
                        break
                    loaded = a == "ok"
                    if loaded:
                        cur = g
                        seen = ask("load " + path)
            except BrokenPipeError:
                pass
            if p.poll() is not None or not out or not seen or (out and not out[-1][2]):
                p.wait()
                res.append((out, open(f + str(id(part)), errors="replace").read()))
                p = None
            else:
                res.append((out, None))
            for g, path in ops:
                os.unlink(path)
        if p:
            p.stdin.close()
            p.wait()
        return res
    parts = [plans[i::vlib.NPROC] for i in range(vlib.NPROC)]
    got = {}
    for i, r in enumerate(vlib.pmap(drive, parts)):
        for j, x in enumerate(r):
            got[i + j * vlib.NPROC] = x
    cases, idx = [], []
    for k, (fmt, b, models, src, ops) in enumerate(plans):
        out, err = got[k]
        if err is not None:
            c.violation("C15 converting a valid %s file to %s ended badly\n%s" % (fmt, [o[0] for o in ops], err[:3000]), [src])
            if len(c.violations) > 3:
                return
            continue
        cs = {"f": fmt, "b": list(b), "was": list(was), "ops": []}
        for g, seen, a, data in out:
            cs["ops"].append({"g": g, "seen": seen[7:] if seen.startswith("loaded ") else seen, "ok": a == "ok", "b": list(data)})
            c.count("conversions")
            if a != "ok":
                c.count("refused")
            if g == fmt:
                c.count("same_format")
        cases.append(cs)
        idx.append(k)
    c.sample({"from": plans[0][0], "bytes": len(plans[0][1]), "to": [o[0] for o in plans[0][4]]})
    bad = vlib.tlc_cases(c, "BspFile", ["Sound", "Recognised", "Refused", "Untouched", "Preserved"], cases,
                         weight=lambda x: len(x["b"]) * (1 + len(x["ops"])))
    for k, inv, trace in bad:
        if inv == "Sound":
            raise vlib.CheckError("the generator made an invalid file: " + trace[:1500])
        fmt, b, models, src, ops = plans[idx[k]]
        st = int(vlib.tlc_values(trace, "i")[-1])
        o = cases[k]["ops"][st - 1] if st <= len(cases[k]["ops"]) else {}
        out = os.path.join(c.scratch, "out.bsp")
        open(out, "wb").write(bytes(o.get("b", [])))
        c.violation("C15 %s: a %s file, steps %s, step %d: seen as %s, %s" % (inv, fmt, [x["g"] for x in cases[k]["ops"]], st, o.get("seen"), "written" if o.get("ok") else "refused"),
                    [src, out])
    c.assumptions = ["files hold no NaN and no Quake II visibility lump without clusters",
                     "fields a target format does not have (Hexen II's extra hulls in Quake, another game's lumps) are outside what is preserved"]

vlib.main(check, "C15")
