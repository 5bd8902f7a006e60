"""C12: settings under histories of sources, texts, command lines, resets and copies, against Settings.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

KINDS = ["bool", "ibool", "int", "int", "float", "float", "vint", "enum", "string", "path", "set", "vec3", "mangle", "color", "func", "redirect"]
LABELS = [["loose", 0], ["Archive", 1], ["inverse2", 5], ["none", -1]]
NAMES = ["a", "bb", "dist", "light", "origin", "phong_allowed", "a_very_long_name_of_a_setting_indeed", "x1", "samples", "gate", "dirt", "delay", "mode", "wad", "tex", "q"]
NUMS = ["0", "1", "-1", "3", "5", "7.5", "-2.25", "100", "1000", "12abc", " 4", "+6", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "99999999999", "-4294967295", "0.125", ".5", "-.25",
        "6.", "1e2", "1.5e1", "25e-1", "1e", "007", "-0", "99", "101"]
SMALL = [x for x in NUMS if len(x.strip("-+ ")) < 5]
BAD = ["", "abc", "-", "--", "e5", ".", "loose", "ARCHIVE", "Loosened", "archive2", "inverse2", "None", "a b", "//x", "{", "-bb", "-light", "\"q r\"", "inf", "-inf", "map.bsp"]
ANGLES = ["0", "90", "-90", "180", "270", "360", "-180"]

def hx(s):
    return s.encode("latin-1").hex() or "-"
def by(s):
    return list(s.encode("latin-1"))
def un(s):
    return [] if s == "-" else list(bytes.fromhex(s))

def defs_of(rng, ns):
    out = []
    for k in [rng.choice(KINDS) for _ in range(rng.choice([1, 3, 5, 8]))]:
        if len(ns) < 3:
            break
        names = [ns.pop(rng.randrange(len(ns))) for _ in range(rng.choice([1, 1, 1, 2]))]
        d = {"k": k, "names": names, "group": rng.randrange(3), "om": False, "ov": 0, "mn": 0, "mx": 0, "dv": 0, "labels": [], "targets": []}
        if k in ("bool", "ibool"):
            d["dv"] = rng.randrange(2)
        elif k in ("int", "vint", "float"):
            u = 8 if k == "float" else 1
            if k != "float" and rng.random() < 0.4:
                d["mn"], d["mx"] = -2147483648, 2147483647
            else:
                d["mn"], d["mx"] = rng.choice([(0, 100 * u), (-5 * u, 5 * u), (1, 8 * u), (-1000 * u, 0)])
            d["dv"] = rng.choice([d["mn"], d["mx"], max(d["mn"], min(d["mx"], 2 * u))]) if abs(d["mn"]) < 100000 else 4
            d["om"] = k != "vint" and rng.random() < 0.35
            d["ov"] = rng.choice([u, 0, 200 * u])
            if k == "int" and d["mn"] < -100000:
                d["om"] = False
        elif k == "enum":
            d["dv"] = rng.choice([0, 1, 5, -1])
            d["labels"] = LABELS
        elif k in ("string", "path"):
            d["dv"] = rng.choice(["", "maps", "a/b"])
        elif k == "mangle":
            d["dv"] = [8 * int(rng.choice(ANGLES)), 8 * int(rng.choice(ANGLES)), 0]
        elif k in ("vec3", "color"):
            d["dv"] = rng.choice([[0, 0, 0], [8, 4, 0], [8, 8, 16], [80, -8, 3], [8, 8, 8]])
        elif k == "redirect":
            t = [i + 1 for i, e in enumerate(out)]
            if not t:
                ns += names
                continue
            d["targets"] = rng.sample(t, min(len(t), rng.choice([1, 2])))
            if rng.random() < 0.5:
                d["names"] = [rng.choice(["no", "no_"]) + "redirect%d" % len(out)] + names
        out.append(d)
    return out
def kind_at(defs, i):
    d = defs[i]
    while d["k"] == "redirect":
        d = defs[d["targets"][0] - 1]
    return d["k"]
def mangly(defs, d):
    return d["k"] == "mangle" or (d["k"] == "redirect" and any(mangly(defs, defs[t - 1]) for t in d["targets"]))
def floaty(defs, d):
    return d["k"] in ("vec3", "color", "float") or (d["k"] == "redirect" and any(floaty(defs, defs[t - 1]) for t in d["targets"]))
def tokens_for(rng, defs, d):
    """the words that may follow a setting's name"""
    k = d["k"]
    if k == "redirect":
        k = defs[d["targets"][0] - 1]["k"]
    if mangly(defs, d):
        # only right angles, so that the directions are exact
        return [rng.choice(ANGLES) for _ in range(rng.choice([0, 1, 2, 3, 3]))] + ([] if rng.random() < 0.9 else ["z"])
    if k in ("vec3", "color", "float") or floaty(defs, d):
        nums = SMALL + ["inf"] if k == "float" else SMALL
        if rng.random() < 0.12:
            nums = [b for b in BAD if "inf" not in b]
        return [rng.choice(nums) for _ in range(1 if k == "float" else rng.choice([3, 3, 3, 2, 1, 4]))]
    if k in ("int", "vint"):
        return [rng.choice(NUMS if rng.random() < 0.85 else BAD)]
    if k in ("bool", "ibool"):
        return rng.choice([[], ["1"], ["0"], ["-1"], ["1"], ["0"], ["2"], ["01"], ["true"], ["1", "0"]])
    if k == "enum":
        return [rng.choice(["loose", "LOOSE", "archive", "Archive", "inverse2", "INVERSE2", "none", "None", "1", "5", "0", "-1", "7", "3x", "loos", "looser", "", "2147483648"])]
    if k == "func":
        return rng.choice([[], [], ["1"]])
    return [rng.choice(["maps", "a/b", "x y", "", "-q", "c:\\\\w", "zz", "1", "\"", "d//e"])]
def random_name(rng, defs):
    if not defs or rng.random() < 0.08:
        return rng.choice(["nothing", "noa", "A", "bb2", "_", "__", "no", ""]), None
    d = rng.choice(defs)
    n = rng.choice(d["names"])
    if d["k"] == "ibool" and rng.random() < 0.5:
        n = "no" + n
    return n, d
def history(rng):
    ns = list(NAMES)
    a = defs_of(rng, ns)
    # the second container shares some names, not always with the same kind
    mode = rng.random()
    if mode < 0.5:
        b = [dict(d) for d in a]
    else:
        b = defs_of(rng, list(NAMES))
    if not a or not b:
        return history(rng)
    ops = []
    for _ in range(rng.choice([4, 8, 14])):
        c = rng.choice("aaab")
        defs = a if c == "a" else b
        o = rng.choice(["set", "set", "name", "name", "name", "name", "cmd", "cmd", "dict", "reset", "resetall", "copy", "help"] if rng.random() < 0.9 else ["help"])
        op = {"o": o, "c": c}
        if o in ("set", "reset"):
            op["x"] = rng.randrange(len(defs)) + 1
            d = defs[op["x"] - 1]
        if o == "set":
            k = d["k"]
            op["src"] = rng.choice([1, 2, 2, 3, 0])
            if k in ("bool", "ibool"):
                op["v"] = rng.randrange(2)
            elif k in ("int", "vint", "float"):
                op["v"] = rng.choice([0, 1, 8, 3, -4, 40, 1000, -1000, 100000])
            elif k == "enum":
                op["v"] = rng.choice([0, 1, 5, -1])
            elif k in ("string", "path", "set"):
                op["v"] = rng.choice(["p", "maps", "", "q/r"])
            elif k == "mangle":
                op["v"] = [8 * int(rng.choice(ANGLES)), 8 * int(rng.choice(ANGLES)), 0]
            elif k in ("vec3", "color"):
                op["v"] = [rng.choice([0, 8, 4, 80, -8, 9]) for _ in range(3)]
            else:
                continue
        elif o == "name":
            n, d = random_name(rng, defs)
            op["n"] = rng.choice(["", "", "_", "__"]) + n
            op["t"] = rng.choice([" ", "  ", "\t"]).join(quoted(rng, t) for t in (tokens_for(rng, defs, d) if d else ["1"]))
            op["src"] = rng.choice([1, 2, 2, 3, 0])
        elif o == "dict":
            op["src"] = rng.choice([1, 2])
            kv = {}
            for _ in range(rng.choice([1, 2, 4])):
                n, d = random_name(rng, defs)
                kv[rng.choice(["", "_"]) + n] = " ".join(quoted(rng, t) for t in (tokens_for(rng, defs, d) if d else ["1"]))
            op["kv"] = [[k, v] for k, v in kv.items()]
        elif o == "cmd":
            args = []
            for _ in range(rng.choice([0, 1, 2, 4])):
                n, d = random_name(rng, defs)
                args.append(rng.choice(["-", "-", "-", "--", "---", ""] if rng.random() < 0.2 else ["-"]) + rng.choice(["", "", "", "_"]) + n)
                if d:
                    args += tokens_for(rng, defs, d)
            args += rng.choice([[], ["map.bsp"], ["a.map", "-bb"], [""], ["-help"], ["-"], ["x y", ""]])
            op["args"] = args
        elif o == "help" and rng.random() < 0.6:
            continue
        ops.append(op)
    return a, b, ops
def quoted(rng, t):
    # a word as it would stand in map text
    if t == "" or " " in t or "//" in t:
        return '"' + t.replace('"', "") + '"'
    return t.replace('"', "") or '""'
def line_def(c, d):
    v = lambda x: " ".join(str(y) for y in x)
    s = "def %d %s %s %d" % (c, d["k"], ",".join(hx(n) for n in d["names"]), d["group"])
    k = d["k"]
    if k in ("bool", "ibool", "enum"):
        s += " %d" % d["dv"]
    elif k in ("int", "vint", "float"):
        s += " %d %s" % (d["om"], v([d["dv"], d["mn"], d["mx"], d["ov"]]))
    elif k in ("string", "path"):
        s += " " + hx(d["dv"])
    elif k in ("vec3", "mangle", "color"):
        s += " " + v(d["dv"])
    elif k == "redirect":
        s += " " + v((d["targets"] + [0])[:2])
    return s
def line_op(op):
    c = 0 if op["c"] == "a" else 1
    o = op["o"]
    s = "%s %d" % (o, c)
    if o == "set":
        v = op["v"]
        s += " %d %d %s" % (op["x"], op["src"], hx(v) if isinstance(v, str) else " ".join(map(str, v)) if isinstance(v, list) else v)
    elif o == "name":
        s += " %s %s %d" % (hx(op["n"]), hx(op["t"]), op["src"])
    elif o == "dict":
        s += " %d %s" % (op["src"], " ".join(hx(k) + " " + hx(v) for k, v in op["kv"]))
    elif o == "cmd":
        s += " " + " ".join(hx(a) for a in op["args"])
    elif o == "reset":
        s += " %d" % op["x"]
    return s
def state_of(defs, words):
    out = []
    for d, w in zip(defs, words):
        s, ch, v, t = w.split(":")
        k = d["k"]
        if v == "x":
            val = 0
        elif k in ("string", "path"):
            val = un(v)
        elif k == "set":
            val = [un(y) for y in v[1:].split(",") if y]
        elif k in ("vec3", "mangle", "color", "func"):
            val = [int(y) for y in v.split(",")]
        else:
            val = int(v)
        out.append({"s": int(s), "c": ch == "1", "v": val, "w": un(t)})
    return out
def tla_def(d):
    d = dict(d)
    d["names"] = [by(n) for n in d["names"]]
    d["labels"] = [[by(l), v] for l, v in d["labels"]]
    if isinstance(d["dv"], str):
        d["dv"] = by(d["dv"])
    return d
def check(c):
    rng = c.rng
    hist = [history(rng) for _ in range(c.n(6000, 60000))]
    exe = c.build("settings")["settings"]
    f = os.path.join(c.scratch, "in.txt")
    with open(f, "w") as o:
        for a, b, ops in hist:
            o.write("new\n")
            for w, ds in ((0, a), (1, b)):
                for d in ds:
                    o.write(line_def(w, d) + "\n")
            for op in ops:
                o.write(line_op(op) + "\n")
    rc, out = vlib.run([exe], stdin=open(f), timeout=300)
    got = [l for l in out.split("\n") if l]
    n = sum(len(h[2]) for h in hist)
    if rc != 0 or len(got) != n:
        k = len(got)
        for a, b, ops in hist:
            if k < len(ops):
                break
            k -= len(ops)
        c.violation("C12 the settings ended with %s at an operation after %s of\n%s\n%s\n%s" % (rc, [line_op(x) for x in ops[max(0, k - 2):k + 1]], ops, [d for d in a], out[-600:]), [f])
        return
    cases, g = [], iter(got)
    for a, b, ops in hist:
        cs = {"a": [tla_def(d) for d in a], "b": [tla_def(d) for d in b], "ops": []}
        for op in ops:
            w = next(g).split(" ")
            q = dict(op)
            assert w[0] == op["o"], w
            k = 1
            if op["o"] == "name":
                q.update(r=int(w[1]), n=by(op["n"]), t=by(op["t"]))
                k = 2
            elif op["o"] == "cmd":
                q.update(args=[by(x) for x in op["args"]], r="" if w[1][0] == "=" else w[1], rest=[un(x) for x in w[1][1:].split(",") if x] if w[1][0] == "=" else [])
                k = 2
            elif op["o"] == "help":
                q["lines"] = [list(x) for x in bytes(un(w[1])).split(b"\n") if x.startswith(b"  ")]
                k = 2
            elif op["o"] == "dict":
                q["kv"] = [[by(x), by(y)] for x, y in op["kv"]]
            elif op["o"] == "set" and isinstance(op["v"], str):
                q["v"] = by(op["v"])
            q["got"] = state_of(a if op["c"] == "a" else b, w[k:])
            cs["ops"].append(q)
        cases.append(cs)
    c.cov["histories"] = len(cases)
    c.cov["operations"] = n
    c.cov["by_operation"] = {o: sum(1 for h in hist for x in h[2] if x["o"] == o) for o in ("set", "name", "dict", "cmd", "reset", "resetall", "copy", "help")}
    c.cov["command_lines_refused"] = sum(1 for x in got if x.startswith("cmd refused"))
    c.sample({"settings": [line_def(0, d) for d in hist[0][0]], "operations": [line_op(o) for o in hist[0][2]]})
    for k, inv, trace in vlib.tlc_cases(c, "Settings", ["Agrees"], cases, weight=lambda x: len(x["ops"]) * (len(x["a"]) + len(x["b"]))):
        i = vlib.tlc_values(trace, "i")
        i = int(i[-1]) - 1 if i else 0
        c.violation("C12 %s: after operation %d of %s\nthe containers %s\n / %s\nthe code says %s\nthe specification %s %s" % (
            vlib.tlc_values(trace, "verdict")[-1:], i, [line_op(o) for o in hist[k][2]][:i], hist[k][0], hist[k][1], cases[k]["ops"][i - 1],
            vlib.tlc_values(trace, "A")[-1:], vlib.tlc_values(trace, "B")[-1:]), [f])
    c.assumptions += ["mangles are multiples of right angles, fractions multiples of 1/8, so that values are exact", "NaN is not asked for"]

if __name__ == "__main__":
    vlib.main(check, "C12")
