"""Lightmaps in the files that light wrote, as Lightmap.tla reads them."""
import os, struct
import bspread, compiler, lit

Q1SPECIAL = 1
Q2NODRAW, Q2SKIP, Q2SKY = 0x80, 0x200, 4

def per_face(b, name, fmt):
    s = struct.Struct("<" + fmt)
    buf = b.bspx[name]
    if len(buf) != s.size * len(b.faces):
        raise bspread.BadBSP("%s has %d bytes for %d faces" % (name, len(buf), len(b.faces)))
    return list(s.iter_unpack(buf))

def whole64(v):
    x = v * 64
    if abs(x - round(x)) > 1e-3 or abs(x) > 1 << 22:
        raise bspread.BadBSP("texture vector %r" % v)
    return int(round(x))

def lit_file(path):
    buf = open(path, "rb").read()
    if buf[:4] != b"QLIT" or struct.unpack_from("<i", buf, 4)[0] != 1:
        raise bspread.BadBSP("header of the .lit file")
    return list(buf[8:])

def record(b, fs, path, scale, vanilla, mode, lightgrid=False):
    """fs: lit.faces records of all faces of all models, in file order"""
    n = len(b.faces)
    lump = b.lumps["lighting"]
    rgblump = b.q2 or b.fmt == "hl"
    shift = per_face(b, "LMSHIFT", "B") if "LMSHIFT" in b.bspx else None
    lmofs = per_face(b, "LMOFFSET", "i") if "LMOFFSET" in b.bspx else None
    lmst = None
    for nm, w in (("LMSTYLE", "B"), ("LMSTYLE16", "H")):
        if nm in b.bspx and n:
            size = struct.calcsize(w)
            k = len(b.bspx[nm]) // (n * size)
            if len(b.bspx[nm]) != k * n * size or not k:
                raise bspread.BadBSP("%s has %d bytes for %d faces" % (nm, len(b.bspx[nm]), n))
            lmst = [[255 if x == (1 << 8 * size) - 1 else x for x in r] for r in per_face(b, nm, "%d%s" % (k, w))]
    dec = per_face(b, "DECOUPLED_LM", "HHi8f") if "DECOUPLED_LM" in b.bspx else None
    if (dec is not None) != (mode == "decoupled"):
        raise bspread.BadBSP("DECOUPLED_LM lump " + ("without" if dec else "missing with") + " -world_units_per_luxel")
    out = []
    if sum(m["numfaces"] for m in b.models) != n or len(fs) != n:
        raise bspread.BadBSP("%d faces, %d known" % (n, len(fs)))
    order = [m["firstface"] + k for m in b.models for k in range(m["numfaces"])]
    for k, f in zip(order, fs):
        bf = b.faces[k]
        t = b.texinfo[bf["texinfo"]]
        if b.q2:
            sp = bool(t["flags"] & (Q2NODRAW | Q2SKIP)) or (lightgrid and bool(t["flags"] & Q2SKY))
        else:
            sp = bool(t["flags"] & Q1SPECIAL) or f["t"].lower() in ("trigger", "skip")
        st = list(bf["styles"])
        r = dict(f, vec=[whole64(x) for x in t["vecs"]], sp=sp, st=st, ofs=bf["lightofs"],
                 xs=[], xo=-1, xsc=scale, dv=[0] * 8, dw=0, dh=0, do=-1, two=f["t"].startswith("*"))
        r.pop("t")
        if mode == "shift":
            r["xs"] = lmst[k] if lmst else st
            r["xo"] = lmofs[k][0] if lmofs else bf["lightofs"]
            r["xsc"] = 1 << shift[k][0] if shift else scale
        if mode == "decoupled":
            r["dw"], r["dh"], r["do"] = dec[k][:3]
            r["dv"] = [whole64(x) for x in dec[k][3:]]
            if r["do"] == -1:
                r["dv"] = [0] * 8
        out.append(r)
    rgb = []
    if "RGBLIGHTING" in b.bspx:
        rgb = list(b.bspx["RGBLIGHTING"])
    lp = os.path.splitext(path)[0] + ".lit"
    if os.path.exists(lp):
        ext = lit_file(lp)
        if rgb and rgb != ext:
            raise bspread.BadBSP(".lit and RGBLIGHTING differ")
        rgb = ext
    grey = rgblump or vanilla or bool(lump) or "RGBLIGHTING" not in b.bspx
    return dict(faces=out, nfaces=n, grey=grey, size=len(lump) if grey else len(rgb) // 3, bpp=3 if rgblump else 1, lump=list(lump), rgb=rgb, scale=scale, vanilla=vanilla, mode=mode, unlit=b.q2)
