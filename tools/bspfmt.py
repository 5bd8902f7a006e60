"""Tables of the BSP file formats, and a writer that is independent of the repository's."""
import struct
from bspread import Q1L, Q2L

Q1ORD = Q1L
Q2ORD = Q2L
# lump -> struct format of one element; None: bytes
COMMON_Q1 = dict(entities=None, textures=None, visibility=None, lighting=None, planes="4fi", vertexes="3f", texinfo="8fii", surfedges="i")
Q1SMALL = dict(nodes="i2h6h2H", leafs="ii6h2H4B", clipnodes="i2h", faces="hhihh4Bi", edges="2H", marksurfaces="H")
RMQ = dict(nodes="i2i6h2I", leafs="ii6h2I4B", clipnodes="i2i", faces="5i4Bi", edges="2I", marksurfaces="I")
B2 = dict(nodes="i2i6f2I", leafs="ii6f2I4B", clipnodes="i2i", faces="5i4Bi", edges="2I", marksurfaces="I")
Q1M, H2M = dict(models="9f4iiii"), dict(models="9f8iiii")
COMMON_Q2 = dict(entities=None, visibility=None, lighting=None, pop=None, planes="4fi", vertexes="3f", texinfo="8fii32si", surfedges="i",
                 models="9fiii", brushes="iii", areas="ii", areaportals="ii")
Q2S = dict(nodes="i2i6h2H", leafs="ihh6h4H", faces="Hhihh4Bi", edges="2H", marksurfaces="H", leafbrushes="H", brushsides="Hh")
Q2B = dict(nodes="i2i6f2I", leafs="iii6f4I", faces="5i4Bi", edges="2I", marksurfaces="I", leafbrushes="I", brushsides="Ii")

def merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r

FORMATS = {
    "bsp29": (struct.pack("<i", 29), Q1ORD, merge(COMMON_Q1, Q1SMALL, Q1M)),
    "hl": (struct.pack("<i", 30), Q1ORD, merge(COMMON_Q1, Q1SMALL, Q1M)),
    "bsp2rmq": (b"2PSB", Q1ORD, merge(COMMON_Q1, RMQ, Q1M)),
    "bsp2": (b"BSP2", Q1ORD, merge(COMMON_Q1, B2, Q1M)),
    "h2": (struct.pack("<i", 29), Q1ORD, merge(COMMON_Q1, Q1SMALL, H2M)),
    "h2bsp2rmq": (b"2PSB", Q1ORD, merge(COMMON_Q1, RMQ, H2M)),
    "h2bsp2": (b"BSP2", Q1ORD, merge(COMMON_Q1, B2, H2M)),
    "q2": (b"IBSP" + struct.pack("<i", 38), Q2ORD, merge(COMMON_Q2, Q2S)),
    "qbism": (b"QBSP" + struct.pack("<i", 38), Q2ORD, merge(COMMON_Q2, Q2B)),
}

def is_q2(fmt):
    return fmt in ("q2", "qbism")

def pack(fmt, name, val):
    f = FORMATS[fmt][2][name]
    if f is None or isinstance(val, (bytes, bytearray)):
        return bytes(val)
    s = struct.Struct("<" + f)
    return b"".join(s.pack(*(v if isinstance(v, (tuple, list)) else (v,))) for v in val)

def build(fmt, lumps, bspx=None):
    magic, order, _ = FORMATS[fmt]
    head = len(magic) + 8 * len(order)
    body = b""
    d = b""
    for n in order:
        p = pack(fmt, n, lumps.get(n, b""))
        d += struct.pack("<ii", head + len(body), len(p))
        body += p + b"\0" * (-len(p) % 4)
    out = magic + d + body
    if bspx:
        o = len(out)
        t = o + 8 + 32 * len(bspx)
        d, body = b"", b""
        for k, v in bspx.items():
            d += struct.pack("<24sii", k.encode(), t + len(body), len(v))
            body += v + b"\0" * (-len(v) % 4)
        out += b"BSPX" + struct.pack("<i", len(bspx)) + d + body
    return out

def elements(fmt, name, data):
    f = FORMATS[fmt][2][name]
    if f is None:
        return bytes(data)
    return list(struct.iter_unpack("<" + f, data))
