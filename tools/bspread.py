"""Independent reader of the BSP files the tools write (not the repository's loader)."""
import struct

Q1L = "entities planes textures vertexes visibility nodes texinfo faces lighting clipnodes leafs marksurfaces edges surfedges models".split()
Q2L = "entities planes vertexes visibility nodes texinfo faces lighting leafs marksurfaces leafbrushes edges surfedges models brushes brushsides pop areas areaportals".split()

class BadBSP(Exception):
    pass

def arr(buf, fmt):
    s = struct.Struct("<" + fmt)
    if len(buf) % s.size:
        raise BadBSP("lump size %d is not a multiple of %d" % (len(buf), s.size))
    return list(s.iter_unpack(buf))

class BSP:
    pass

def read(path):
    data = open(path, "rb").read()
    b = BSP()
    b.raw = data
    if len(data) < 8:
        raise BadBSP("short file")
    magic = data[:4]
    if magic == b"IBSP":
        b.fmt = "q2"
    elif magic == b"QBSP":
        b.fmt = "qbism"
    elif magic == b"BSP2":
        b.fmt = "bsp2"
    elif magic == b"2PSB":
        b.fmt = "bsp2rmq"
    else:
        v = struct.unpack("<i", magic)[0]
        b.fmt = {29: "bsp29", 30: "hl"}.get(v)
        if not b.fmt:
            raise BadBSP("magic %r" % magic)
    b.q2 = b.fmt in ("q2", "qbism")
    names = Q2L if b.q2 else Q1L
    off = 8 if b.q2 else 4
    L = {}
    b.dir = []
    end = off + 8 * len(names)
    for i, n in enumerate(names):
        o, l = struct.unpack_from("<ii", data, off + 8 * i)
        if o < 0 or l < 0 or o + l > len(data):
            raise BadBSP("lump %s outside the file" % n)
        b.dir.append((n, o, l))
        L[n] = data[o:o + l]
        end = max(end, o + l)
    b.lumps = L
    # BSPX
    b.bspx = {}
    p = (end + 3) & ~3
    if data[p:p + 4] == b"BSPX":
        n = struct.unpack_from("<i", data, p + 4)[0]
        for i in range(n):
            nm, o, l = struct.unpack_from("<24sii", data, p + 8 + 32 * i)
            if o < 0 or l < 0 or o + l > len(data):
                raise BadBSP("bspx lump outside the file")
            b.bspx[nm.split(b"\0")[0].decode()] = data[o:o + l]
    b.entities = L["entities"].split(b"\0")[0].decode("latin1")
    b.planes = [((x, y, z), d, t) for x, y, z, d, t in arr(L["planes"], "4fi")]
    b.vertexes = arr(L["vertexes"], "3f")
    small = b.fmt in ("bsp29", "hl", "q2")
    if b.fmt in ("bsp29", "hl"):
        nodes = arr(L["nodes"], "i2h6h2H")
        leafs = arr(L["leafs"], "ii6h2H4B")
        clip = arr(L["clipnodes"], "i2h")
    elif b.fmt == "bsp2rmq":
        nodes = arr(L["nodes"], "i2i6h2I")
        leafs = arr(L["leafs"], "ii6h2I4B")
        clip = arr(L["clipnodes"], "i2i")
    elif b.fmt == "bsp2":
        nodes = arr(L["nodes"], "i2i6f2I")
        leafs = arr(L["leafs"], "ii6f2I4B")
        clip = arr(L["clipnodes"], "i2i")
    elif b.fmt == "q2":
        nodes = arr(L["nodes"], "i2i6h2H")
        leafs = arr(L["leafs"], "ihh6h4H")
        clip = []
    else:
        nodes = arr(L["nodes"], "i2i6f2I")
        leafs = arr(L["leafs"], "iii6f4I")
        clip = []
    b.nodes = [dict(plane=n[0], ch=[n[1], n[2]], mins=n[3:6], maxs=n[6:9], firstface=n[9], numfaces=n[10]) for n in nodes]
    if b.q2:
        b.leafs = [dict(contents=l[0], cluster=l[1], area=l[2], mins=l[3:6], maxs=l[6:9], first=l[9], num=l[10],
                        firstb=l[11], numb=l[12]) for l in leafs]
    else:
        b.leafs = [dict(contents=l[0], visofs=l[1], mins=l[2:5], maxs=l[5:8], first=l[8], num=l[9], amb=l[10:14]) for l in leafs]
    b.clipnodes = []
    ncl = len(clip)
    for c in clip:
        ch = list(c[1:3])
        if b.fmt in ("bsp29", "hl"):  # 16 bit children: values below -15 are clipnode indices above 32767
            ch = [x if x >= -15 else x + 65536 for x in ch]
        b.clipnodes.append(dict(plane=c[0], ch=ch))
    if small:
        f = arr(L["faces"], "Hhihh4Bi" if b.fmt == "q2" else "hhihh4Bi")
        b.edges = arr(L["edges"], "2H")
        b.marks = [x[0] for x in arr(L["marksurfaces"], "H")]
    else:
        f = arr(L["faces"], "5i4Bi")
        b.edges = arr(L["edges"], "2I")
        b.marks = [x[0] for x in arr(L["marksurfaces"], "I")]
    b.faces = [dict(plane=x[0], side=x[1], firstedge=x[2], numedges=x[3], texinfo=x[4], styles=x[5:9], lightofs=x[9]) for x in f]
    b.surfedges = [x[0] for x in arr(L["surfedges"], "i")]
    if b.q2:
        b.texinfo = [dict(vecs=t[:8], flags=t[8], value=t[9], tex=t[10].split(b"\0")[0].decode("latin1"), next=t[11])
                     for t in arr(L["texinfo"], "8fii32si")]
        b.models = [dict(mins=m[0:3], maxs=m[3:6], origin=m[6:9], head=[m[9]], firstface=m[10], numfaces=m[11])
                    for m in arr(L["models"], "9fiii")]
        b.leafbrushes = [x[0] for x in arr(L["leafbrushes"], "H" if b.fmt == "q2" else "I")]
        b.brushes = [dict(first=x[0], num=x[1], contents=x[2]) for x in arr(L["brushes"], "iii")]
        b.brushsides = arr(L["brushsides"], "Hh" if b.fmt == "q2" else "Ii")
        b.areas = arr(L["areas"], "ii")
        b.areaportals = arr(L["areaportals"], "ii")
    else:
        b.texinfo = [dict(vecs=t[:8], miptex=t[8], flags=t[9]) for t in arr(L["texinfo"], "8fii")]
        m = L["models"]
        if len(m) % 80 == 0 and len(m) % 64 != 0 or (len(m) % 320 == 0 and guess_h2(m)):
            b.models = [dict(mins=m[0:3], maxs=m[3:6], origin=m[6:9], head=list(m[9:17]), visleafs=m[17], firstface=m[18],
                             numfaces=m[19]) for m in arr(m, "9f8iiii")]
            b.h2 = True
        else:
            b.models = [dict(mins=m[0:3], maxs=m[3:6], origin=m[6:9], head=list(m[9:13]), visleafs=m[13], firstface=m[14],
                             numfaces=m[15]) for m in arr(m, "9f4iiii")]
        t = L["textures"]
        b.textures = []
        if t:
            n = struct.unpack_from("<i", t, 0)[0]
            for i in range(n):
                o = struct.unpack_from("<i", t, 4 + 4 * i)[0]
                if o < 0:
                    b.textures.append(None)
                    continue
                nm = struct.unpack_from("<16s", t, o)[0]
                b.textures.append(nm.split(b"\0")[0].decode("latin1"))
        for ti in b.texinfo:
            ti["tex"] = b.textures[ti["miptex"]] if 0 <= ti["miptex"] < len(b.textures) else None
    b.visibility = L["visibility"]
    return b

def guess_h2(m):
    return struct.unpack_from("<i", m, 36 + 4 * 4)[0] < 65536 and struct.unpack_from("<f", m, 64)[0] == 0.0

def face_verts(b, f):
    out = []
    for k in range(f["numedges"]):
        e = b.surfedges[f["firstedge"] + k]
        out.append(b.edges[e][0] if e >= 0 else b.edges[-e][1])
    return out

def decompress(buf, ofs, nbytes):
    out = bytearray()
    while len(out) < nbytes:
        c = buf[ofs]
        ofs += 1
        if c:
            out.append(c)
        else:
            r = buf[ofs]
            ofs += 1
            if r == 0:
                raise BadBSP("zero repeat")
            out.extend(b"\0" * r)
    if len(out) > nbytes:
        raise BadBSP("visibility row overruns")
    return bytes(out)

def bits(row, n):
    return [i for i in range(n) if row[i >> 3] >> (i & 7) & 1]

def parse_prt(path):
    toks = open(path).read().split()
    it = iter(toks)
    kind = next(it)
    r = dict(kind=kind)
    if kind == "PRT1":
        r["leafs"] = r["clusters"] = int(next(it))
        n = int(next(it))
    else:
        r["leafs"] = int(next(it))
        r["clusters"] = int(next(it))
        if kind == "PRT1-AM":
            r["leafs"], r["clusters"] = r["clusters"], r["leafs"]
            n = int(next(it))
        else:
            n = int(next(it))
    r["portals"] = []
    text = " ".join(it).replace("(", " ").replace(")", " ").split()
    p = 0
    for _ in range(n):
        np_, a, c = int(text[p]), int(text[p + 1]), int(text[p + 2])
        p += 3
        pts = []
        for _ in range(np_):
            pts.append([float(text[p]), float(text[p + 1]), float(text[p + 2])])
            p += 3
        r["portals"].append(dict(a=a, b=c, pts=pts))
    rest = [int(x) for x in text[p:]]
    r["rest"] = rest
    return r
