"""Running the real vis on portal worlds and recording what it wrote."""
import os, re, struct
import vlib, vbuild, pworld, bspread, bspfmt

Q1FORMATS = ["bsp29", "bsp2", "bsp2rmq", "hl", "h2", "h2bsp2", "h2bsp2rmq"]
Q2FORMATS = ["q2", "qbism"]

def put(d, w, fmt, rng, name="w", kind=None):
    q2 = bspfmt.is_q2(fmt)
    with open(os.path.join(d, name + ".prt"), "w") as f:
        f.write(pworld.prt(w, rng, kind, q2))
    with open(os.path.join(d, name + ".bsp"), "wb") as f:
        f.write(pworld.bsp(w, fmt))
    return os.path.join(d, name + ".bsp")

def run(exe, path, args=(), threads=1, env=None, timeout=120, shim=False):
    e = dict(env or {})
    if shim or any(k.startswith("VSHIM") for k in e):
        e["LD_PRELOAD"] = vbuild.shim()
    return vlib.run([exe, "-threads", str(threads), "-nopercent"] + list(args) + [path], cwd=os.path.dirname(path), env=e, timeout=timeout)

def record(path, w, q2, name="", vd=False, state=False, same=0):
    b = bspread.read(path)
    v = b.lumps["visibility"]
    r = {"name": name, "vd": vd, "same": same, "state": [], "phs": [], "solid": []}
    if q2:
        n = struct.unpack_from("<i", v, 0)[0] if len(v) >= 4 else 0
        if n != w.ncl or len(v) < 4 + 8 * n:
            raise bspread.BadBSP("visibility header says %d clusters, the portal file %d" % (n, w.ncl))
        o = [struct.unpack_from("<ii", v, 4 + 8 * i) for i in range(n)]
        r["ofs"], r["phs"] = [x[0] for x in o], [x[1] for x in o]
        if any(x < 4 + 8 * n for x in r["ofs"] + r["phs"]):
            raise bspread.BadBSP("a row lies inside the header of the visibility lump")
    else:
        if len(b.leafs) != len(w.cells) + 1:
            raise bspread.BadBSP("%d leafs" % len(b.leafs))
        r["ofs"] = [l["visofs"] for l in b.leafs[1:]]
        r["solid"] = [b.leafs[0]["visofs"]]
    r["vis"] = list(v)
    if state:
        with open(path[:-4] + ".vis", "rb") as f:
            r["state"] = list(f.read())
    return r
