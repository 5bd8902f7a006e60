"""C17: the contents and surface flag algebra of every game: laws model-checked on Contents.tla, and every answer of the real gamedefs compared with it"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

GAMES = ["quake", "hexen2", "halflife", "quake2"]
SETS = """from strongest made dk_solid dk_wall dk_fence dk_illusionary nodetail setdetail emptyc solidc mirrored clips leaf brush cluster ab ba ab_c a_bc pv vp face cword sword""".split()
INTS = ["index", "mirror", "clipsq"]
TEX = ["origin", "hint", "hintskip", "clip", "*lava", "*slime", "*water", "*", "*lav", "*slim1", "*teleport", "sky", "sky1", "skybox", "sk", "skip", "trigger", "brick", "wall/trigger", "e1u1/trigger",
       "e1u1/triggers", "clipper", "originx", "hintx", "lava", "+0lava", "rsky", "e1u1/sky", "Hint", "ORIGIN", "Clip", "SKY9", "*LAVA2", "*Slimy", "SKIP", "Trigger", "_lava"]
WORDS = ["SOLID", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", "AREAPORTAL", "PLAYERCLIP", "MONSTERCLIP", "CURRENT_0", "CURRENT_90", "CURRENT_180", "CURRENT_270", "CURRENT_UP", "CURRENT_DOWN",
         "ORIGIN", "MONSTER", "DEADMONSTER", "DETAIL", "TRANSLUCENT", "LADDER", "LIGHT", "SLICK", "SKY", "WARP", "TRANS33", "TRANS66", "FLOWING", "NODRAW", "HINT", "SKIP", "ALPHATEST", "special", "nothing", "1",
         ] + [str(1 << k) for k in range(7, 15)] + [str(1 << k) for k in range(15, 32)]

def texclass(t):
    l = t.lower()
    if l == "origin":
        return "origin"
    if l in ("hint", "hintskip"):
        return "hint"
    if l == "clip":
        return "clip"
    if l.startswith("*lava"):
        return "lava"
    if l.startswith("*slime"):
        return "slime"
    if l.startswith("*"):
        return "liquid"
    if l.startswith("sky"):
        return "sky"
    return "other"

def bits(v):
    return [k for k in range(64) if v >> k & 1]

def mask(s):
    return sum(1 << k for k in s)

VIS = list(range(9))
def contents(rng, g):
    k = rng.random()
    if k < 0.1:
        s = {rng.randrange(38)}
    elif k < 0.6:
        # what a brush may carry
        s = set(rng.sample(VIS if rng.random() < 0.2 else [0, 1, 2, 3, 5, 6, 7, 8], rng.choice([0, 1, 1, 1, 1, 2])))
        if rng.random() < 0.2:
            s.add(rng.randrange(9, 14))
        if rng.random() < 0.45:
            s.add(14)
        if g == "q2" and rng.random() < 0.3:
            s.add(24)
        if rng.random() < 0.1:
            s.add(rng.randrange(18, 38))
        if rng.random() < 0.1:
            s.add(17)
        if rng.random() < 0.15:
            s |= rng.choice([{16}, {15, 16}])
    elif k < 0.9:
        s = {b for b in range(25) if rng.random() < rng.choice([0.1, 0.3])}
    else:
        s = {b for b in range(38) if rng.random() < 0.5}
    return s

def surfs(rng, q2):
    k = rng.random()
    if k < 0.25:
        return set()
    if k < 0.6:
        return {rng.choice([0, 0, 1, 5, 31] if not q2 else list(range(10)) + [25])}
    return {b for b in range(32) if rng.random() < rng.choice([0.08, 0.5])}

def s32(v):
    return v - (1 << 32) if v >> 31 & 1 else v

def check(c):
    rng = c.rng
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(2)
    cfg = 'SPECIFICATION Spec\nCONSTANT G = "%s"\nCONSTANT NativeBits = {%s}\nINVARIANT Combines\nINVARIANT Sights\nINVARIANT Faces\nINVARIANT Predicates\n'
    q2bits = "0, 1, 2, 3, 5, 6, 15, 16, 18, 27, 28" if c.tier == "thorough" else rng.choice(["0, 1, 5, 15, 27, 28", "0, 2, 5, 16, 27, 28", "0, 3, 6, 18, 27, 28", "1, 3, 5, 27, 28"])
    laws = [ex.submit(vlib.tlc, "ContentsMC", cfg % (g, q2bits), timeout=850 if c.tier == "quick" else 3000, workers=4) for g in ("q1", "q2")]
    exe = c.build("contents")["contents"]
    plans = []
    def add(gi, a, b, d):
        q2 = gi == 3
        s = surfs(rng, q2)
        t = surfs(rng, q2) if rng.random() < 0.5 else set(s) ^ ({rng.randrange(10)} if rng.random() < 0.7 else set())
        nat = rng.choice([-1, -2, -3, -4, -5, -6, 0, 1, -7, 5, -100]) if not q2 else mask({rng.randrange(32)} if rng.random() < 0.3 else {k for k in range(32) if rng.random() < rng.choice([0.1, 0.5])})
        plans.append((gi, sorted(a), sorted(b), sorted(d), sorted(s), sorted(t), nat, rng.randrange(3), rng.randrange(3), rng.choice(TEX), rng.choice(WORDS)))
    for gi in (0, 3):
        for v in range(0, 512 if c.tier == "quick" else 16384):
            s = set(bits(v & 511)) | {9 + k for k in bits(v >> 9)}
            for extra in ((), (14,)) if c.tier == "thorough" or rng.random() < 0.5 else ((14,),):
                add(gi, s | set(extra), contents(rng, "q2" if gi == 3 else "q1"), contents(rng, "q1"))
    for w in WORDS:
        for gi in range(4):
            add(gi, contents(rng, "q1"), contents(rng, "q1"), set())
            plans[-1] = plans[-1][:10] + (w.lower() if rng.random() < 0.3 else w,)
    for t in TEX:
        for gi in range(4):
            add(gi, contents(rng, "q1") if gi < 3 or rng.random() < 0.5 else set(), contents(rng, "q1"), set())
            plans[-1] = plans[-1][:9] + (t, plans[-1][10])
    single = [set(), {0}, {1}, {2, 14}, {3, 14}, {3, 14, 24}, {5}, {6}, {7}, {8, 14}, {0, 14}, {7, 14}, {7, 24, 14}, {7, 24}, {10}, {10, 14}, {12}, {4, 14}, {7, 17}, {3, 14, 17}, {7, 18}]
    for gi in range(4):
        for a in single:
            for b in single:
                if gi in (0, 3) or rng.random() < 0.15:
                    add(gi, a, b, rng.choice(single))
    for _ in range(c.n(6000, 60000)):
        gi = rng.choice([0, 0, 1, 2, 3, 3, 3, 3])
        g = "q2" if gi == 3 else "q1"
        a = contents(rng, g)
        k = rng.random()
        b = set(a) if k < 0.05 else set(a) ^ {rng.randrange(26)} if k < 0.3 else contents(rng, g)
        add(gi, a, b, contents(rng, g))
    src = os.path.join(c.scratch, "in.txt")
    with open(src, "w") as f:
        for p in plans:
            f.write("%d %d %d %d %d %d %d %d %d %s %s\n" % (p[0], mask(p[1]), mask(p[2]), mask(p[3]), s32(mask(p[4])), s32(mask(p[5])), p[6] if p[0] < 3 else s32(p[6]), p[7], p[8], p[9], p[10]))
    rc, out = vlib.run([exe], cwd=c.scratch, timeout=200, stdin=open(src))
    lines = out.splitlines()
    if rc or len(lines) != len(plans):
        c.violation("the flag operations end with status %s after %d of %d cases" % (rc, len(lines), len(plans)), [src], data={"case": str(plans[min(len(lines), len(plans) - 1)])})
        return
    cases = []
    for p, l in zip(plans, lines):
        o = dict(x.split("=", 1) for x in l.split())
        r = {}
        q2 = p[0] == 3
        for k, v in o.items():
            if k in ("native", "back"):
                r[k] = ([-1] if v == "refused" else bits(int(v) & 0xffffffff)) if q2 else 1 if v == "refused" else int(v)
            elif k == "from":
                r[k] = [-1] if v == "refused" else bits(int(v))
            elif k in SETS:
                r[k] = bits(int(v))
            elif k in INTS:
                r[k] = int(v)
            elif k == "display":
                r[k] = v.split("_|_")
            else:
                r[k] = v == "1"
        t = p[9]
        low = t.lower()
        w = p[10]
        cases.append({"game": "q2" if q2 else "q1", "a": p[1], "b": p[2], "c": p[3], "surf": p[4], "surf2": p[5], "native": bits(p[6]) if q2 else p[6], "mir": p[7], "cl": p[8],
                      "class": texclass(t), "texclass": ("/trigger" if t.endswith("/trigger") else "") if q2 else low, "ishint": low == "hint",
                      "word": w.upper(), "wordbit": int(w).bit_length() - 1 if w.isdigit() and w != "1" else -1, "out": r})
    inv = ["Native", "Predicates", "Making", "Mixing", "Sight", "FacesOfPortals", "Surfaces", "Words"]
    for ci, what, trace in vlib.tlc_cases(c, "ContentsTrace", inv, cases, procs=6):
        p = plans[ci]
        one = os.path.join(c.scratch, "case.txt")
        open(one, "w").write(str(p) + "\n" + lines[ci] + "\n")
        c.violation("%s: %s of contents %s, %s" % (GAMES[p[0]], what, p[1], p[2]), [one], key="%s/%s" % (GAMES[p[0]], what), data={"case": cases[ci], "trace": trace})
    for f in laws:
        r = f.result()
        c.add_tlc(r)
        if not r.ok:
            raise vlib.CheckError("the laws do not hold in the model: %s\n%s" % (r.violated, r.out[-3000:]))
    c.count("cases", len(cases))
    c.sample({"game": GAMES[plans[0][0]], "a": plans[0][1], "answers": lines[0]})
    c.assumptions.append("the laws are required of contents that brushes can carry and their mixtures; other combinations are only compared answer by answer")

if __name__ == "__main__":
    vlib.main(check, "C17")
