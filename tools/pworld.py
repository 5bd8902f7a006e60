"""Portal worlds: clusters of grid cells joined by rectangular openings, under an integer affine map; the BSP and the portal
file vis reads are written directly, so the world is known exactly without the compiler."""
import struct
import bspfmt

class PWorld:
    pass

def gen(rng, n=None, dens=None, maxleafs=60, affine=True, merge=None):
    w = PWorld()
    n = n or rng.choice([[rng.randrange(2, 6), rng.randrange(2, 5), rng.randrange(1, 4)], [rng.randrange(2, 6), rng.randrange(2, 5), rng.randrange(1, 4)],
                        [rng.randrange(4, 8), rng.randrange(4, 7), rng.randrange(1, 3)]])
    merge = rng.choice([0, 0.4, 0.9, 0.9]) if merge is None else merge
    dens = rng.choice([0.1, 0.3, 0.45] if merge < 0.5 else [0, 0.1, 0.2]) if dens is None else dens
    G = []
    for a in range(3):
        x = rng.randrange(-20, 20) * 8
        r = [x]
        for _ in range(n[a]):
            x += rng.choice([32, 40, 48, 64])
            r.append(x)
        G.append(r)
    w.G, w.n = G, n
    cells = [(x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2]) if rng.random() >= dens]
    if len(cells) < 2:
        cells = [(0, 0, 0), (1, 0, 0)]
    rng.shuffle(cells)
    cells = cells[:maxleafs]
    cs = set(cells)
    # clusters: boxes of open cells
    cl = {}
    ncl = 0
    split = merge > 0.5 and rng.random() < 0.7
    if split:
        # the leafs of a random subdivision
        stack = [([0, 0, 0], list(n))]
        boxes = []
        while stack:
            lo, hi = stack.pop()
            ax = [a for a in range(3) if hi[a] - lo[a] > 1]
            vol = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])
            if not ax or (vol <= 6 and rng.random() < 0.35):
                boxes.append((lo, hi))
                continue
            a = max(ax, key=lambda a: hi[a] - lo[a]) if rng.random() < 0.5 else rng.choice(ax)
            m = rng.randrange(lo[a] + 1, hi[a])
            h2, l2 = list(hi), list(lo)
            h2[a] = l2[a] = m
            stack += [(lo, h2), (l2, hi)]
        rng.shuffle(boxes)
        keep = [b for b in boxes if rng.random() >= dens] or boxes[:1]
        for lo, hi in keep:
            box = [(x, y, z) for x in range(lo[0], hi[0]) for y in range(lo[1], hi[1]) for z in range(lo[2], hi[2])]
            if len(cl) + len(box) > maxleafs and cl:
                continue
            for b in box:
                cl[b] = ncl
            ncl += 1
        cells = list(cl)
        rng.shuffle(cells)
        cs = set(cells)
    for c in sorted(cells) if merge > 0.5 and rng.random() < 0.8 else cells:
        if c in cl:
            continue
        ext = [1, 1, 1]
        if rng.random() < merge:
            ext[rng.randrange(3)] = rng.choice([2, 2, 3] if merge < 0.5 else [2, 3, 3, 4])
            if rng.random() < (0.3 if merge < 0.5 else 0.7):
                ext[rng.randrange(3)] = rng.choice([2, 2, 3])
        while True:
            box = [(c[0] + i, c[1] + j, c[2] + k) for i in range(ext[0]) for j in range(ext[1]) for k in range(ext[2])]
            if not any(b not in cs or b in cl for b in box):
                break
            ext[max(range(3), key=lambda i: ext[i])] -= 1
        for b in box:
            cl[b] = ncl
        ncl += 1
    w.cells, w.cl, w.ncl = cells, cl, ncl
    # openings: (axis, cell below, rect in the two other coordinates); inside a cluster everything is open
    w.open = []
    style = rng.choice(["wide", "mixed", "slits", "mixed"])
    # clusters are boxes, so the cells in which two of them meet form a rectangle: sometimes one opening across all of it
    meet = {}
    for c in cells:
        for a in range(3):
            d = tuple(c[i] + (i == a) for i in range(3))
            if d in cs and cl[d] != cl[c]:
                meet.setdefault((a, cl[c], cl[d]), []).append(c)
    joint = set()
    drop = rng.choice([0.12, 0.12, 0.35])
    if merge > 0.5:
        style = rng.choice(["mixed", "slits", "slits"])
    for (a, lo_, hi_), cc in sorted(meet.items()):
        if len(cc) < 2 or rng.random() < 0.3:
            continue
        if rng.random() < drop / 2:
            joint.add((a, lo_, hi_))
            continue
        o = [i for i in range(3) if i != a]
        mn = [min(c[i] for c in cc) for i in range(3)]
        R = [(G[i][min(c[i] for c in cc)], G[i][max(c[i] for c in cc) + 1]) for i in o]
        joint.add((a, lo_, hi_))
        rect = []
        for lo, hi in R:
            s = hi - lo if style == "wide" or rng.random() < 0.5 else rng.randrange(12, hi - lo + 1)
            p = rng.randrange(0, hi - lo - s + 1)
            rect += [lo + p, lo + p + s]
        w.open.append((a, tuple(mn), *rect))
    for c in cells:
        for a in range(3):
            d = list(c)
            d[a] += 1
            d = tuple(d)
            if d not in cs or cl[d] == cl[c] or (a, cl[c], cl[d]) in joint:
                continue
            o = [i for i in range(3) if i != a]
            R = [(G[i][c[i]], G[i][c[i] + 1]) for i in o]
            k = rng.random()
            if k < drop:
                continue
            if style == "wide" or (style == "mixed" and k < 0.5):
                w.open.append((a, c, R[0][0], R[0][1], R[1][0], R[1][1]))
                continue
            for _ in range(rng.choice([1, 1, 2])):
                rect = []
                for lo, hi in R:
                    s = rng.choice([6, 8, 12, 16, 24])
                    p = rng.randrange(0, hi - lo - s + 1)
                    rect += [lo + p, lo + p + s]
                if not any(x[0] == a and x[1] == c and x[2] < rect[1] and x[3] > rect[0] and x[4] < rect[3] and x[5] > rect[2] for x in w.open):
                    w.open.append((a, c, *rect))
    rng.shuffle(w.open)
    w.M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if affine and rng.random() < 0.6:
        w.M = rng.choice([[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 1], [0, 1, 1], [0, 0, 1]], [[4, -3, 0], [3, 4, 0], [0, 0, 5]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
                          [[2, 1, 1], [-1, 2, 0], [0, -1, 2]], [[1, 0, 0], [1, 1, 0], [1, 1, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 2, 2], [2, 1, -2], [2, -2, 1]]])
    return w

def world(w, u):
    return [sum(w.M[i][j] * u[j] for j in range(3)) for i in range(3)]

def across(w, o):
    """the cells below the opening"""
    a, c, p0, p1, q0, q1 = o
    r = [None, None, None]
    r[a] = [c[a]]
    for i, (lo, hi) in zip([i for i in range(3) if i != a], ((p0, p1), (q0, q1))):
        r[i] = [k for k in range(w.n[i]) if w.G[i][k] < hi and w.G[i][k + 1] > lo]
    return [(x, y, z) for x in r[0] for y in r[1] for z in r[2]]

def opening_pts(o):
    a, c, p0, p1, q0, q1 = o
    return a, [(p0, q0), (p1, q0), (p1, q1), (p0, q1)]

def prt(w, rng=None, kind=None, q2=False):
    """text of the portal file; kind PRT1 / PRT2 / PRT1-AM"""
    w.ports = []
    leafs = leaf_order(w)
    multi = len(leafs) != w.ncl
    kind = kind or ("PRT1" if q2 or not multi else "PRT2")
    if kind == "PRT1":
        s = "PRT1\n%d\n%d\n" % (w.ncl, len(w.open))
    elif kind == "PRT2":
        s = "PRT2\n%d\n%d\n%d\n" % (len(leafs), w.ncl, len(w.open))
    else:
        s = "PRT1-AM\n%d\n%d\n%d\n" % (w.ncl, len(w.open), len(leafs))
    det = w.M[0][0] * (w.M[1][1] * w.M[2][2] - w.M[1][2] * w.M[2][1]) - w.M[0][1] * (w.M[1][0] * w.M[2][2] - w.M[1][2] * w.M[2][0]) + w.M[0][2] * (w.M[1][0] * w.M[2][1] - w.M[1][1] * w.M[2][0])
    for o in w.open:
        a, pts = opening_pts(o)
        c = o[1]
        d = list(c)
        d[a] += 1
        X = []
        ot = [i for i in range(3) if i != a]
        for p in pts:
            u = [0, 0, 0]
            u[a] = w.G[a][c[a] + 1]
            u[ot[0]], u[ot[1]] = p
            X.append(world(w, u))
        # the winding's plane normal (clockwise points) must face the first leaf, here the one below: normal -axis
        cw = (a != 1)
        # counter-clockwise in (p,q) about +axis for a = 0,2 and about -axis for a = 1
        ccw_about_plus = (a != 1)
        if det < 0:
            ccw_about_plus = not ccw_about_plus
        # clockwise seen from the front <=> normal by the Quake rule; clockwise about -axis == ccw about +axis
        if not ccw_about_plus:
            X.reverse()
        a_, b_ = w.cl[c], w.cl[tuple(d)]
        if rng and rng.random() < 0.5:
            a_, b_ = b_, a_
            X.reverse()
        w.ports.append([a_, b_])
        if rng:
            k = rng.randrange(4)
            X = X[k:] + X[:k]
        s += "%d %d %d " % (len(X), a_, b_) + "".join("(%d %d %d ) " % tuple(p) for p in X) + "\n"
    if kind == "PRT2":
        for k in range(w.ncl):
            s += "".join("%d " % i for i, c in enumerate(leafs) if w.cl[c] == k) + "-1\n"
    elif kind == "PRT1-AM":
        s += "".join("%d\n" % w.cl[c] for c in leafs)
    return s

def leaf_order(w):
    """the leaf numbering (leaf i+1 of the file is the i-th cell): clusters in order when there is one leaf per cluster"""
    if not hasattr(w, "_order"):
        if len(w.cells) == w.ncl:
            w._order = sorted(w.cells, key=lambda c: w.cl[c])
        else:
            w._order = sorted(w.cells)
    return w._order

def bsp(w, fmt="bsp29"):
    leafs = leaf_order(w)
    q2 = bspfmt.is_q2(fmt)
    n = len(leafs)
    b = (-4000.0,) * 3 if fmt in ("bsp2", "qbism", "h2bsp2") else (-4000,) * 3
    t = tuple(-x for x in b)
    L = dict(planes=[(1.0, 0.0, 0.0, 0.0, 0)], entities=b'{\n"classname" "worldspawn"\n}\n\0', vertexes=[(0.0, 0.0, 0.0)] * 2,
             edges=[(0, 0)], surfedges=[])
    # a chain of nodes that mentions every leaf
    nodes = []
    for i in range(n):
        nodes.append((0, i + 1 if i + 1 < n else -1, -(i + 1) - 1) + b + t + (0, 0))
    L["nodes"] = nodes
    if q2:
        L["leafs"] = [(1, -1, 0) + b + t + (0, 0, 0, 0)] + [(0, w.cl[c], 1) + b + t + (0, 0, 0, 0) for c in leafs]
        L["models"] = [(0.0,) * 9 + (0, 0, 0)]
        L["areas"] = [(0, 0), (0, 0)]
        L["areaportals"] = [(0, 0)]
    else:
        L["leafs"] = [(-2, -1) + b + t + (0, 0, 0, 0, 0, 0)] + [(-1, -1) + b + t + (0, 0, 0, 0, 0, 0) for c in leafs]
        nh = 8 if fmt.startswith("h2") else 4
        L["models"] = [(0.0,) * 9 + (0,) * nh + (n, 0, 0)]
        L["clipnodes"] = [(0, -1, -2)]
        L["textures"] = struct.pack("<i", 0)
    return bspfmt.build(fmt, L)

# ---------------------------------------------------------------------------------------------
def rays(w, rng, count, margin=2):
    """Segments between points of two cells that pass every boundary inside an opening, at least `margin` from its edges.
    Points have coordinates in eighths.  Only a search: the specification decides whether they are open."""
    op = {}
    for k, (a, c, p0, p1, q0, q1) in enumerate(w.open):
        for c_ in across(w, w.open[k]):
            op.setdefault((a, c_), []).append((p0, p1, q0, q1))
    def walk(P, Q):
        """list of crossings or None"""
        ts = []
        for a in range(3):
            d = Q[a] - P[a]
            if d == 0:
                return None
            for i, g in enumerate(w.G[a]):
                num = 8 * g - P[a]
                t = num / d
                if 0 < t < 1:
                    ts.append((t, a, i))
        ts.sort()
        for x, y in zip(ts, ts[1:]):
            if y[0] - x[0] < 1e-9:
                return None
        c = [max(i for i, g in enumerate(w.G[a]) if 8 * g < P[a]) for a in range(3)]
        seq = [tuple(c)]
        if tuple(c) not in w.cl:
            return None
        for t, a, i in ts:
            s = 1 if Q[a] > P[a] else -1
            lowcell = list(c)
            if s < 0:
                lowcell[a] -= 1
            nxt = list(c)
            nxt[a] += s
            if not 0 <= nxt[a] < w.n[a] or tuple(nxt) not in w.cl:
                return None
            o = [k for k in range(3) if k != a]
            X = [(P[k] + t * (Q[k] - P[k])) / 8 for k in o]
            if w.cl[tuple(nxt)] != w.cl[tuple(c)]:
                for (p0, p1, q0, q1) in op.get((a, tuple(lowcell)), ()):
                    if p0 + margin <= X[0] <= p1 - margin and q0 + margin <= X[1] <= q1 - margin:
                        break
                else:
                    return None
            c = nxt
            seq.append(tuple(c))
        return seq
    out = []
    seen = set()
    ncl = {}
    def inside(o):
        a, c, p0, p1, q0, q1 = o
        u = [0, 0, 0]
        u[a] = 8 * w.G[a][c[a] + 1]
        for i, (lo, hi) in zip([i for i in range(3) if i != a], ((p0, p1), (q0, q1))):
            lo, hi = 8 * (lo + margin), 8 * (hi - margin)
            u[i] = rng.choice([lo + 3, hi - 3, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)]) if hi > lo + 6 else (lo + hi) // 2
        return u
    def free(T):
        return all(8 * w.G[i][0] < T[i] < 8 * w.G[i][-1] for i in range(3)) and all(T[i] % 8 or T[i] // 8 not in w.G[i] for i in range(3))
    # pairs of which the plane of one cuts the other
    cuts = []
    for o in w.open:
        for t in w.open:
            if t[0] != o[0]:
                lo, hi = o[2:4] if t[0] == min(i for i in range(3) if i != o[0]) else o[4:6]
                if lo < w.G[t[0]][t[1][t[0]] + 1] < hi:
                    cuts += [(o, t), (t, o)]
    for _ in range(count * 25):
        if len(out) >= count:
            break
        kind = rng.random()
        if kind < 0.5 and len(w.open) > 1:
            # through two openings
            A, B = (inside(o) for o in (rng.choice(cuts) if cuts and rng.random() < 0.5 else rng.sample(w.open, 2)))
            v = [B[i] - A[i] for i in range(3)]
            P = Q = None
            for k in rng.sample([1, 2, 4, 8, 16, 32], 6):
                T = [(A[i] - v[i] * k // 16) | 1 for i in range(3)]
                if free(T):
                    P = T
                    break
            for k in rng.sample([1, 2, 4, 8, 16, 32], 6):
                T = [(B[i] + v[i] * k // 16) | 1 for i in range(3)]
                if free(T):
                    Q = T
                    break
            if not P or not Q:
                continue
        elif kind < 0.75 and w.open:
            # aim through an opening, near a corner of it
            a, c, p0, p1, q0, q1 = rng.choice(w.open)
            o = [i for i in range(3) if i != a]
            u = [0, 0, 0]
            u[a] = w.G[a][c[a] + 1]
            u[o[0]] = rng.choice([p0 + margin + 1, p1 - margin - 1, (p0 + p1) // 2])
            u[o[1]] = rng.choice([q0 + margin + 1, q1 - margin - 1, (q0 + q1) // 2])
            P = point_in(w, rng, rng.choice(w.cells))
            v = [8 * u[i] - P[i] for i in range(3)]
            Q = None
            for k in (rng.choice([5, 9, 14, 20, 30]), 5, 3):
                T = [P[i] + v[i] * k // 4 for i in range(3)]
                if free(T):
                    Q = T
                    break
            if not Q:
                continue
        else:
            P = point_in(w, rng, rng.choice(w.cells))
            Q = point_in(w, rng, rng.choice(w.cells))
        s = walk(P, Q)
        if not s:
            continue
        a, b = w.cl[s[0]], w.cl[s[-1]]
        if a == b or ncl.get((a, b), 0) >= 2:
            continue
        ncl[(a, b)] = ncl.get((a, b), 0) + 1
        out.append({"p": P, "q": Q})
    return out

def point_in(w, rng, c):
    return [8 * w.G[a][c[a]] + rng.randrange(5, 8 * (w.G[a][c[a] + 1] - w.G[a][c[a]]) - 5, 2) | 1 for a in range(3)]

def describe(w, visdist=0, margin=2):
    """the world as the specifications read it; call prt() first"""
    nx, ny, nz = w.n
    idx = lambda c: c[0] + nx * (c[1] + ny * c[2])
    cl = [-1] * (nx * ny * nz)
    for c in w.cells:
        cl[idx(c)] = w.cl[c]
    op = [[] for _ in range(3 * nx * ny * nz)]
    for k, o in enumerate(w.open):
        for c_ in across(w, o):
            op[o[0] * nx * ny * nz + idx(c_)].append({"r": list(o[2:]), "p": k})
    return {"grid": w.G, "n": w.n, "nc": w.ncl, "nl": len(w.cells), "lc": [w.cl[c] for c in leaf_order(w)], "cl": cl, "op": op, "margin": margin,
            "visdist": visdist, "ports": w.ports, "open": [{"a": o[0], "c": list(o[1]), "r": list(o[2:])} for o in w.open]}
