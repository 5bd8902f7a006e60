"""C19: bsputil changes what it was asked to change and nothing else; histories of real runs judged by BspEdit.tla, scaling and questions by BspScale.tla"""
import sys, os, re, struct, shutil, hashlib, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, lit, bspread

def tok(x):
    return hashlib.sha256(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:12]

def tex_record(buf):
    nm, w, h = struct.unpack_from("<16sII", buf)
    n = nm.split(b"\0")[0].decode("latin1")
    return dict(n=n, low=n.lower(), w=w, h=h, id=tok(buf), pix=len(buf) > 40)

def textures(b):
    t = b.lumps.get("textures", b"")
    if not t:
        return []
    n = struct.unpack_from("<i", t, 0)[0]
    ofs = [struct.unpack_from("<i", t, 4 + 4 * i)[0] for i in range(n)]
    out = []
    for o in ofs:
        if o < 0:
            out.append(dict(n="", low="", w=0, h=0, id="none", pix=False))
        else:
            end = min([x for x in ofs if x > o] + [len(t)])
            out.append(tex_record(t[o:end]))
    return out

FMT = {"q2": "q2bsp", "qbism": "qbism", "bsp29": "bsp29", "bsp2": "bsp2", "bsp2rmq": "bsp2rmq", "hl": "hl"}
def short(b):
    f = FMT[b.fmt]
    return {"bsp29": "hexen2", "bsp2": "hexen2bsp2", "bsp2rmq": "hexen2bsp2rmq"}[f] if getattr(b, "h2", False) else f

def bsp_value(path):
    b = bspread.read(path)
    ent = b.lumps["entities"]
    fl = []
    for f in b.faces:
        g = dict(f)
        g.pop("texinfo")
        fl.append(sorted(g.items()))
    other = [(n, d) for n, d in sorted(b.lumps.items()) if n not in ("entities", "textures", "faces")] + [fl]
    return dict(k="bsp", fmt=short(b), ents=tok(ent[:-1] if ent.endswith(b"\0") else ent), texs=textures(b), bspx=[[n, tok(d)] for n, d in sorted(b.bspx.items())],
                ti=[f["texinfo"] for f in b.faces], other=tok(other))

def wad_value(data):
    if data[:4] not in (b"WAD2", b"WAD3"):
        return None
    n, o = struct.unpack_from("<ii", data, 4)
    out = []
    if n < 0 or o < 0 or o + 32 * n > len(data):
        return dict(k="broken")
    for i in range(n):
        p, dl, l, ty, co, _, nm = struct.unpack_from("<iiiBBH16s", data, o + 32 * i)
        if p < 0 or dl < 40 or p + dl > len(data) or dl != l or co:
            return dict(k="broken")
        r = tex_record(data[p:p + dl])
        if nm.split(b"\0")[0].decode("latin1") != r["n"]:
            return dict(k="broken")
        out.append(r)
    return dict(k="wad", texs=out)

def value(path):
    with open(path, "rb") as f:
        data = f.read()
    if data[:4] in (b"IBSP", b"QBSP", b"BSP2", b"2PSB", b"\x1d\0\0\0", b"\x1e\0\0\0"):
        try:
            return bsp_value(path)
        except bspread.BadBSP:
            return dict(k="broken")
    return wad_value(data) or dict(k="raw", id=tok(data))

def listing(d):
    return [dict(name=f, v=value(os.path.join(d, f))) for f in sorted(os.listdir(d)) if not f.endswith(".log") and f not in ("t.wad", "m.prt", "m.map", "m.texinfo.json")]

GROUPS = [["bsp29", "bsp2", "bsp2rmq"], ["hexen2", "hexen2bsp2", "hexen2bsp2rmq"], ["q2bsp", "qbism"], ["hl"]]

def entfile(rng, text):
    ents = re.findall(r"\{[^{}]*\}\n?", text)
    k = rng.randrange(4)
    if k == 0:
        return text
    if k == 1 and len(ents) > 1:
        return "".join(ents[:-1])
    if k == 2:
        return text + '{\n"classname" "info_null"\n"origin" "%d 8 8"\n}\n' % rng.randrange(-99, 99)
    return '{\n"classname" "worldspawn"\n"message" "%s"\n}' % "".join(rng.choice("abc \\n.!") for _ in range(rng.randrange(12)))

def wadfile(rng, names, game):
    pick = [n for n in names if rng.random() < .7] + ["zzz"]
    low = rng.random() < .3
    data = mapgen.wad2([n.upper() if low else n for n in pick], *rng.choice([(16, 16), (16, 16), (16, 16), (32, 16), (8, 32)]), palette=game == "hl")
    body = bytearray(data)
    end = struct.unpack_from("<i", data, 8)[0]
    shift = rng.randrange(1, 90)
    n = struct.unpack_from("<i", data, 4)[0]
    for i in range(n):
        p, l = struct.unpack_from("<ii", data, end + 32 * i)
        for q in range(p + 40, min(p + 40 + 300, p + l)):
            body[q] = (body[q] + shift) % 224
    return bytes(body)

def edit_case(c, exe, j):
    d = os.path.join(c.scratch, "%d" % j["i"], "e")
    os.makedirs(d)
    rng = j["rng"]
    shutil.copy(j["bsp"], os.path.join(d, "m.bsp"))
    names = sorted(mapgen.texnames(j["m"]))
    for k in range(2):
        with open(os.path.join(d, "n%d.ent" % k), "w") as f:
            f.write(entfile(rng, j["ents"]))
        with open(os.path.join(d, "w%d.wad" % k), "wb") as f:
            f.write(wadfile(rng, names, j["game"]))
        with open(os.path.join(d, "x%d.dat" % k), "wb") as f:
            f.write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40, 333]))))
    case = dict(dir=listing(d), steps=[])
    for _ in range(rng.randrange(3, 9)):
        now = {e["name"]: e["v"] for e in case["steps"][-1]["dir"]} if case["steps"] else {e["name"]: e["v"] for e in case["dir"]}
        if any(v["k"] == "broken" for v in now.values()):
            break
        made = [n for n, v in now.items() if v["k"] == "bsp" and not n.endswith(".bsp")]
        if made and rng.random() < .8:
            a = rng.choice(made)
            to = "c%d.bsp" % len(case["steps"])
            os.rename(os.path.join(d, a), os.path.join(d, to))
            case["steps"].append(dict(cmds=[{"op": "mv", "from": a, "to": to}], src=a, stem="", rc=0, crc=-1, text=[], dir=listing(d)))
            continue
        bsps = [n for n, v in now.items() if v["k"] == "bsp" and n.endswith(".bsp")]
        raws = [n for n, v in now.items() if v["k"] == "raw"]
        wads = [n for n, v in now.items() if v["k"] == "wad"]
        src = rng.choice(bsps)
        v = now[src]
        stem = src[:-4]
        cmds, args = [], []
        text, crc = [], -1
        group = next(g for g in GROUPS if v["fmt"] in g)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = rng.choice(["replace-entities", "extract-entities", "extract-textures", "replace-textures", "insert-bspx-lump", "remove-bspx-lump", "extract-bspx-lump",
                             "settexinfo", "convert", "check", "modelinfo"])
            if op in ("extract-textures", "replace-textures") and (group[0] == "q2bsp" or not v["texs"]):
                continue
            # a converted file is not read again on the same command line
            if op == "replace-entities":
                f = rng.choice(raws + ["none.ent"] if rng.random() < .1 else [r for r in raws if r.endswith(".ent")])
                cmds.append(dict(op=op, file=f)); args += ["--" + op, f]
            elif op == "replace-textures":
                f = rng.choice(wads)
                cmds.append(dict(op=op, file=f)); args += ["--" + op, f]
            elif op in ("insert-bspx-lump", "extract-bspx-lump"):
                l = rng.choice([x[0] for x in v["bspx"]] + ["NEWLUMP", "X"])
                f = rng.choice(raws) if op[0] == "i" else "o%d.dat" % rng.randrange(2)
                cmds.append(dict(op=op, lump=l, file=f)); args += ["--" + op, l, f]
            elif op == "remove-bspx-lump":
                l = rng.choice([x[0] for x in v["bspx"]] * 3 + ["NEWLUMP"])
                cmds.append(dict(op=op, lump=l)); args += ["--" + op, l]
            elif op == "settexinfo":
                fa, ti = rng.randrange(len(v["ti"])), rng.choice(v["ti"])
                cmds.append(dict(op=op, face=fa, ti=ti)); args += ["--" + op, str(fa), str(ti)]
            elif op == "convert":
                f = rng.choice(group)
                cmds.append(dict(op=op, fmt=f, got="")); args += ["--" + op, f]
            else:
                cmds.append(dict(op=op)); args += ["--" + op]
            if op in ("insert-bspx-lump", "extract-bspx-lump", "remove-bspx-lump", "settexinfo"):
                break
        if not cmds:
            continue
        rc, log = vlib.run([exe["bsputil"]] + args + [src], cwd=d, timeout=60)
        after = listing(d)
        for x in cmds:
            if x["op"] == "convert":
                g = [e["v"] for e in after if e["name"] == stem + "-" + x["fmt"]]
                x["got"] = g[0].get("other", "") if g else ""
        m = re.search(r"\[CRC: ([0-9a-f]{4})\]", log)
        if m and cmds[0]["op"] == "extract-entities":
            with open(os.path.join(d, stem + ".ent"), "rb") as f:
                t = f.read()
            if len(t) <= 900 and len(cmds) == 1:
                text, crc = list(t), int(m.group(1), 16)
        case["steps"].append(dict(cmds=cmds, src=src, stem=stem, rc=rc, crc=crc, text=text, dir=after, args=" ".join(args)))
    return case

# ---- scaling and questions
def r16(v):
    return max(-2**26, min(2**26, int(round(v * 16))))

def reading(path):
    b = bspread.read(path)
    q = dict(planes=[dict(n=[int(round(x * 1024)) for x in n], d=r16(d), t=t) for n, d, t in b.planes],
             verts=[[r16(x) for x in v] for v in b.vertexes])
    fs = []
    for f in b.faces:
        es = b.surfedges[f["firstedge"]:f["firstedge"] + f["numedges"]]
        ed = [(b.edges[e] if e >= 0 else tuple(reversed(b.edges[-e]))) for e in es]
        fs.append(dict(p=f["plane"], s=f["side"], v=[e[0] for e in ed], closed=all(ed[k][1] == ed[(k + 1) % len(ed)][0] for k in range(len(ed))),
                       rest=[f["firstedge"], f["numedges"], f["texinfo"], list(f["styles"]), f["lightofs"]], ti=f["texinfo"], tex=b.texinfo[f["texinfo"]]["tex"] or ""))
    q["faces"] = fs
    v256 = lambda vs: dict(v=[[int(round(x * 256)) for x in vs[0:3]], [int(round(x * 256)) for x in vs[4:7]]], o=[r16(vs[3]), r16(vs[7])])
    q["tex"] = [v256(t["vecs"]) for t in b.texinfo]
    q["dec"] = []
    if "DECOUPLED_LM" in b.bspx:
        for k in range(len(b.faces)):
            w, h, o, *vs = struct.unpack_from("<HHi8f", b.bspx["DECOUPLED_LM"], 40 * k)
            q["dec"].append(dict(rest=[w, h, o], **v256(vs)))
    q["grid"] = dict(on=False, dist=[0] * 3, mins=[0] * 3, rest="")
    if "LIGHTGRID_OCTREE" in b.bspx:
        g = b.bspx["LIGHTGRID_OCTREE"]
        d = struct.unpack_from("<3f3i3f", g)
        q["grid"] = dict(on=True, dist=[r16(x) for x in d[0:3]], mins=[r16(x) for x in d[6:9]], rest=tok([d[3:6], g[36:]]))
    q["nodes"] = [dict(p=n["plane"], c=list(n["ch"]), lo=[r16(x) for x in n["mins"]], hi=[r16(x) for x in n["maxs"]]) for n in b.nodes]
    q["clip"] = [dict(p=n["plane"], c=n["ch"]) for n in b.clipnodes]
    box = lambda l: dict(lo=[r16(x) for x in l["mins"]], hi=[r16(x) for x in l["maxs"]])
    q["leafs"] = [box(l) for l in b.leafs]
    q["models"] = [dict(ff=m["firstface"], nf=m["numfaces"], **box(m)) for m in b.models]
    hulls = 1 if b.q2 else {"hl": 4}.get(b.fmt, 6 if getattr(b, "h2", False) else 3)
    q["trees"] = [[h, m["head"][h]] for m in b.models for h in range(hulls)]
    q["sides"] = [s[0] for s in getattr(b, "brushsides", [])]
    rest = [(n, tok(d)) for n, d in sorted(b.lumps.items()) if n in ("textures", "visibility", "lighting", "marksurfaces", "edges", "leafbrushes", "areas", "areaportals", "brushes", "leafs2")]
    rest += [tok([{k: v for k, v in x.items() if k not in ("mins", "maxs", "vecs", "origin")} for x in s]) for s in (b.leafs, b.models, b.texinfo)]
    rest += [tok([(x["firstface"], x["numfaces"]) for x in b.nodes]), tok([s[1] for s in getattr(b, "brushsides", [])]), short(b)]
    rest += [(n, tok(d)) for n, d in sorted(b.bspx.items()) if n not in ("DECOUPLED_LM", "LIGHTGRID_OCTREE", "FACENORMALS", "BRUSHLIST")]
    q["rest"] = [str(x) for x in rest]
    ents = []
    for e in re.findall(r"\{([^{}]*)\}", b.entities):
        kv = []
        for k, v in re.findall(r'"([^"]*)"\s+"([^"]*)"', e):
            if k == "origin":
                v = [r16(float(x)) for x in v.split()]
            elif k in ("lip", "height"):
                v = r16(float(v))
            kv.append([k, v])
        ents.append(kv)
    q["ents"] = ents
    return q, b

def points(rng, b, n):
    m = b.models[0]
    return [[16 * rng.randrange(int(m["mins"][a]) - 20, int(m["maxs"][a]) + 20) + rng.choice([4, 12]) for a in range(3)] for _ in range(n)]

def scale_case(c, exe, j):
    rng = j["rng"]
    d = os.path.join(c.scratch, "%d" % j["i"], "s")
    os.makedirs(d)
    p = os.path.join(d, "m.bsp")
    shutil.copy(j["bsp"], p)
    s = [rng.choice([2, 4, 4, 6, 8, 12]) * (-1 if rng.random() < .3 else 1) for _ in range(3)]
    if rng.random() < .3:
        s = [s[0]] * 3
    rc, log = vlib.run([exe["bsputil"], "--scale"] + ["%g" % (x / 4) for x in s] + [p], cwd=d, timeout=60)
    files = [j["bsp"], os.path.join(d, "m-scaled.bsp")]
    try:
        q, b = reading(p)
        r, _ = reading(files[1])
    except (OSError, bspread.BadBSP) as e:
        return None, "--scale %s: %s\n%s" % (s, e, log[-500:]), files
    return dict(kind="scale", s=s, before=q, after=r, points=points(rng, b, 24), answers=[], normals=[]), "--scale " + " ".join("%g" % (x / 4) for x in s), files

def ask_cases(c, exe, j):
    rng = j["rng"]
    d = os.path.join(c.scratch, "%d" % j["i"], "a")
    os.makedirs(d)
    p = os.path.join(d, "m.bsp")
    shutil.copy(j["bsp"], p)
    q, b = reading(p)
    out = []
    pts = points(rng, b, 6)
    ans = []
    for x in pts:
        rc, log = vlib.run([exe["bsputil"], "--findleaf"] + ["%g" % (v / 16) for v in x] + [p], cwd=d, timeout=60)
        m = re.search(r"leaf (\d+): contents", log)
        ans.append(int(m.group(1)) if m else -999)
    out.append((dict(kind="leaf", s=[4, 4, 4], before=q, after=q, points=pts, answers=ans, normals=[]), "--findleaf", [p]))
    pts, nrm, ans = [], [], []
    for k in rng.sample(range(len(b.faces)), min(8, len(b.faces))):
        f = b.faces[k]
        n = [int(v) * (-1 if f["side"] else 1) for v in b.planes[f["plane"]][0]]
        if b.planes[f["plane"]][2] > 2:
            continue
        ax = [a for a in range(3) if n[a]][0]
        vs = [b.vertexes[v] for v in bspread.face_verts(b, f)]
        x = []
        for a in range(3):
            lo, hi = min(v[a] for v in vs), max(v[a] for v in vs)
            x.append(r16(lo) if a == ax else 16 * rng.randrange(int(lo) - 3, int(hi) + 3) + 8 if rng.random() < .3 else 16 * rng.randrange(int(lo), max(int(lo) + 1, int(hi))) + 8)
        rc, log = vlib.run([exe["bsputil"], "--findfaces"] + ["%g" % (v / 16) for v in x] + [str(v) for v in n] + [p], cwd=d, timeout=60)
        if rc:
            ans.append([[-1, -1, "", rc]])
        else:
            ans.append([[int(m[0]), int(m[1]), m[2], int(m[3])] for m in re.findall(r"model (\d+) face (\d+): texture '([^']*)' texinfo (\d+)", log)])
        pts.append(x)
        nrm.append([v * 1024 for v in n])
    out.append((dict(kind="faces", s=[4, 4, 4], before=q, after=q, points=pts, answers=ans, normals=nrm), "--findfaces", [p]))
    return out

def make(c, rng, i):
    game = rng.choice(list(lit.GAMES))
    q2 = game in ("q2", "qbism")
    kinds = ["solid", "solid", "water", "lava", "slime", "detail", "sky"] if q2 else compiler.ALLKINDS
    m, _ = lit.gen(rng, kinds, game) if rng.random() < 0.7 else (mapgen.gen(rng, kinds, leak=0.15, cells=(5, 4, 4), nbrush=(4, 10), scale=(16, 64)), 0)
    if not m:
        return None
    if rng.random() < 0.6:
        compiler.add_bmodels(rng, m, rng.randrange(1, 3))
        for _, _, keys in m.bmodels:
            if rng.random() < .3:
                keys["lip"] = str(rng.randrange(0, 20))
            if rng.random() < .3:
                keys["height"] = str(rng.randrange(8, 90))
    m.world["wad"] = "t.wad"
    import random
    return dict(i=i, m=m, game=game, rng=random.Random(rng.randrange(1 << 30)), qargs=lit.GAMES[game] + rng.choice(compiler.NEUTRAL) + rng.choice([[], [], [], ["-notex"]] if not q2 else [[]]) + rng.choice([[], [], ["-wrbrushes"]]),
                wad=mapgen.wad2(mapgen.texnames(m), palette=game == "hl"), vis=rng.random() < .3,
                largs=rng.choice([[], ["-bspxlit"], ["-lmshift", "3"], ["-world_units_per_luxel", "8"], ["-lightgrid"], None]))

def check(c):
    exe = c.build("qbsp", "vis", "light", "bsputil")
    rng = c.rng
    jobs = [j for j in (make(c, rng, i) for i in range(c.n(180, 3000))) if j]
    def go(j):
        d = c.dir("%d" % j["i"])
        with open(os.path.join(d, "t.wad"), "wb") as f:
            f.write(j["wad"])
        r = compiler.compile_map(exe["qbsp"], j["m"], d, args=j["qargs"])
        if r.bsp is None or not r.bsp.faces:
            return None
        p = os.path.join(d, "m.bsp")
        if j["vis"] and r.prt:
            vlib.run([exe["vis"], "-nostate", "-threads", "1", p], cwd=d, timeout=200)
        if j["largs"] is not None and not ("-notex" in j["qargs"] and j["game"] == "hl"):
            vlib.run([exe["light"], "-threads", "1"] + j["largs"] + [p], cwd=d, timeout=200)
        j["bsp"], j["ents"] = p, bspread.read(p).entities
        return j, edit_case(c, exe, j), scale_case(c, exe, j), ask_cases(c, exe, j)
    edits, meta, places, pmeta = [], [], [], []
    for r in vlib.pmap(go, jobs):
        if not r:
            continue
        j, e, (s, what, files), asks = r
        edits.append(e)
        meta.append(j)
        c.count("steps", len(e["steps"]))
        c.count("commands", sum(len(x["cmds"]) for x in e["steps"]))
        if s is None:
            c.violation("C19 map %d (%s) %s" % (j["i"], j["game"], what), files[:1])
            continue
        places.append(s)
        pmeta.append((j, what, files))
        for a in asks:
            places.append(a[0])
            pmeta.append((j, a[1], a[2]))
            c.count("questions", len(a[0]["points"]))
    for k, inv, trace in vlib.tlc_cases(c, "BspEdit", ["Effects", "Conversions", "Checksum"], edits, weight=lambda x: 40 * len(x["steps"])):
        j = meta[k]
        m = re.findall(r"pos = (\d+)", trace)
        pos = int(m[-1]) if m else 1
        hist = ["%d: %s %s rc %d%s" % (n + 1, s.get("args", "mv"), s["src"], s["rc"], "   <--" if n + 1 == pos else "") for n, s in enumerate(edits[k]["steps"])]
        c.violation("C19 %s: map %d (%s %s)\n%s\n" % (inv, j["i"], j["game"], " ".join(j["qargs"]), "\n".join(hist)), [j["bsp"]])
    for k, inv, trace in vlib.tlc_cases(c, "BspScale", ["Verts", "Faces", "Texture", "Decoupled", "Grid", "Trees", "Trunks", "Sides", "BoxesOk", "Entities", "Rest", "Leaf", "FacesAt"], places,
                                        weight=lambda x: len(x["before"]["faces"]) * 8 + len(x["before"]["nodes"]) + len(x["before"]["clip"])):
        j, what, files = pmeta[k]
        c.violation("C19 %s: map %d (%s) bsputil %s\npoints %s\nanswers %s\n" % (inv, j["i"], j["game"], what, places[k]["points"], places[k]["answers"]), files)

if __name__ == "__main__":
    vlib.main(check, "C19")
