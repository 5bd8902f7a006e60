"""C16: portal files of the three dialects, well formed and damaged, read by the real LoadPrtFile and judged by PrtFile.tla"""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, pworld, visrun, bspfmt

TOK = re.compile(r"\(|\)|[^\s()]+")

def tokens(text):
    """first line, tokens of the rest"""
    magic, _, rest = text.partition("\n")
    out = []
    for t in TOK.findall(rest):
        if t == "(":
            out.append([2, 0])
        elif t == ")":
            out.append([3, 0])
        elif re.fullmatch(r"-?\d{1,6}", t):
            out.append([0, int(t)])
        elif re.fullmatch(r"-?\d{1,5}\.\d{1,3}", t):
            s = t.split(".")
            v = int(s[0].lstrip("-")) * 1000 + int((s[1] + "00")[:3])
            out.append([1, -v if t[0] == "-" else v])
        else:
            out.append([4, 0])
    return magic, out

def number(rng):
    k = rng.random()
    if k < 0.6:
        return str(rng.randrange(-4096, 4097))
    s = "%.*f" % (rng.choice([1, 2, 3]), rng.choice([rng.uniform(-4096, 4096), rng.uniform(-1, 1)]))
    return s.rstrip("0") + ("0" if s.rstrip("0").endswith(".") else "")

def valid(rng):
    if rng.random() < 0.25:
        w = pworld.gen(rng, maxleafs=12)
        q2 = rng.random() < 0.3
        multi = len(w.cells) != w.ncl
        kind = "PRT1" if q2 else rng.choice(["PRT2", "PRT1-AM"]) if multi else rng.choice(["PRT1", "PRT2", "PRT1-AM"])
        return pworld.prt(w, rng, kind, q2), "q2" if q2 else "q1"
    kind = rng.choice(["PRT1", "PRT1", "PRT2", "PRT2", "PRT1-AM"])
    game = "q2" if kind == "PRT1" and rng.random() < 0.5 else "q1"
    cl = rng.choice([0, 1, 2, 3, 5, 9, 12]) if kind == "PRT1" else rng.choice([1, 2, 3, 5, 9])
    lf = cl + rng.choice([0, 1, 3, 9]) if kind != "PRT1" else cl
    np = rng.choice([0, 1, 2, 5]) if cl else 0
    s = kind + "\n" + {"PRT1": "%d\n%d\n" % (cl, np), "PRT2": "%d\n%d\n%d\n" % (lf, cl, np), "PRT1-AM": "%d\n%d\n%d\n" % (cl, np, lf)}[kind]
    for _ in range(np):
        n = rng.choice([3, 4, 4, 5, 8, 64, 24, 25])
        s += "%d %d %d " % (n, rng.randrange(cl), rng.randrange(cl))
        sp = rng.choice(["", "", " "])
        s += "".join("(%s%s %s %s ) " % (sp, number(rng), number(rng), number(rng)) for _ in range(n)) + "\n"
    m = list(range(cl)) + [rng.randrange(cl) for _ in range(lf - cl)] if cl else []
    if kind != "PRT1" and lf != cl:
        rng.shuffle(m)
    if kind == "PRT2":
        for k in range(cl):
            ls = [l for l in range(lf) if m[l] == k]
            rng.shuffle(ls)
            s += "".join("%d " % l for l in ls) + "-1\n"
    elif kind == "PRT1-AM":
        s += "".join("%d\n" % x for x in m)
    return s, game

def damage(rng, s):
    k = rng.random()
    if k < 0.35 or "\n" not in s:
        return s[:rng.randrange(len(s) + 1)]
    if k < 0.42:
        return rng.choice(["PRT3", "prt1", "PRT", "", "PRT1 ", "PRT2-AM", "1"]) + s[s.index("\n"):]
    if k < 0.5:
        # one dialect's header on another's body
        return rng.choice(["PRT1", "PRT2", "PRT1-AM"]) + s[s.index("\n"):]
    head, _, rest = s.partition("\n")
    ts = list(TOK.finditer(rest))
    if not ts:
        return s
    early = rng.random() < 0.4
    t = rng.choice(ts[:6] if early else ts)
    j = rng.random()
    if j < 0.7:
        # another number, or no number
        new = rng.choice(["-1", "-2", "0", "1", "2", "3", "12", "13", "63", "64", "65", "66", "9999", "99999", "x", "-", "one"])
        if new in ("9999", "99999") and len(rest[:t.start()].split()) < 3 and rng.random() < 0.8:
            new = "65"
        if rest[t.start()] in "()":
            new = rng.choice(["", "x"])
        return head + "\n" + rest[:t.start()] + new + rest[t.end():]
    if j < 0.85:
        return head + "\n" + rest[:t.start()] + rest[t.end():]
    a, b = sorted([t.start(), rng.choice(ts).start()])
    return head + "\n" + rest[:a] + rest[b:]

def check(c):
    rng = c.rng
    variants = ["std", "asan"]
    exes = [c.build("prtload", variant=v)["prtload"] for v in variants]
    d = c.dir("p")
    cases, lines = [], []
    for i in range(c.n(3000, 40000)):
        s, game = valid(rng)
        kind = "valid"
        if i % 4:
            kind = "damaged"
            for _ in range(rng.choice([1, 1, 1, 2])):
                s = damage(rng, s)
            if rng.random() < 0.05:
                game = "q2"
        f = os.path.join(d, "%d.prt" % i)
        open(f, "w").write(s)
        magic, toks = tokens(s)
        cases.append({"game": game, "magic": magic, "toks": toks, "file": f})
        lines.append("%s %s" % (game, f))
    step = (len(lines) + 15) // 16
    parts = [lines[k:k + step] for k in range(0, len(lines), step)]
    def go(a):
        k, part = a
        lf = os.path.join(c.scratch, "list%d" % k)
        open(lf, "w").write("\n".join(part) + "\n")
        # the second half of the parts runs with the address sanitizer
        rc, out = vlib.run([exes[k % 2]], stdin=open(lf), timeout=600, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"})
        if rc != 0:
            raise vlib.CheckError("prtload ended with %s\n%s" % (rc, out[-1000:]))
        r = [l[1:] for l in out.split("\n") if l.startswith("@")]
        if len(r) != len(part):
            raise vlib.CheckError("prtload answered %d of %d" % (len(r), len(part)))
        return r
    res = [x for part in vlib.pmap(go, list(enumerate(parts))) for x in part]
    th = lambda v: round(float(v) * 1000)
    for case, r in zip(cases, res):
        f = r.split()
        c.count("reader_" + f[0])
        if f[0] != "ok":
            case["res"] = {"what": f[0]}
            continue
        k = 4
        ps = []
        while f[k] == "P":
            n = int(f[k + 1])
            ps.append({"a": int(f[k + 2]), "b": int(f[k + 3]), "pts": [th(v) for v in f[k + 4:k + 4 + 3 * n]]})
            k += 4 + 3 * n
        case["res"] = {"what": "ok", "clusters": int(f[1]), "leafs": int(f[2]), "portals": ps, "map": [int(v) for v in f[k + 1:]]}
    c.sample({k: v for k, v in cases[1].items() if k != "toks"})
    blocks = [cases[k:k + 50] for k in range(0, len(cases), 50)]
    for k, inv, trace in vlib.tlc_cases(c, "PrtFile", ["NoCrash", "RefusesMalformed", "ReadsExactly"], blocks, maxviol=1):
        case = blocks[k][int(vlib.tlc_values(trace, "i")[-1]) - 1]
        v = vlib.tlc_values(trace, "verdict")
        c.violation("C16 %s: %s file for %s, the grammar says %s, the reader: %s" % (inv, case["magic"], case["game"], (v or [""])[-1][:200], str(case["res"])[:300]), [case["file"]])
    # vis refuses a portal file that is not for the BSP
    vis = c.build("vis")["vis"]
    for i in range(c.n(16, 120)):
        w = pworld.gen(rng, maxleafs=20, affine=False)
        fmt = rng.choice(visrun.Q1FORMATS)
        dd = c.dir("m%d" % i)
        path = visrun.put(dd, w, fmt, rng)
        other = pworld.gen(rng, maxleafs=20, affine=False)
        if len(other.cells) == len(w.cells):
            continue
        visrun.put(dd, other, fmt, rng, name="o")
        os.rename(os.path.join(dd, "o.prt"), os.path.join(dd, "w.prt"))
        before = open(path, "rb").read()
        rc, out = visrun.run(vis, path)
        c.count("mismatched")
        if rc != 1 or open(path, "rb").read() != before:
            c.violation("C16 vis took a portal file of %d leafs for a BSP of %d (ended with %s)" % (len(other.cells), len(w.cells), rc), [path, path[:-4] + ".prt"])
    c.assumptions += ["a stray or missing parenthesis, or a decimal where a whole number belongs, may be refused or skipped"]

if __name__ == "__main__":
    vlib.main(check, "C16")
