"""C13: tokens, entity lists, dictionaries: the real parser against Tokens.tla / EntText.tla"""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

def hx(b):
    return bytes(b).hex() or "-"
def un(s):
    return [] if s == "-" else list(bytes.fromhex(s))
PIECES = [b'"', b'"', b"\\", b"/", b"//", b";", b" ", b" ", b"\n", b"\n", b"\r\n", b"\t", b"a", b"b1", b"{", b"}", b"n", b"x", b'"k" "v"', b'\\"', b"\\n", b"\\\\", b"\\b", b"\\x", b"( 0 0 )", b"-1.5",
          b"\x01", b"'", b"tex/ture", b"a;b", b"\"c:\\foo\\\"\n", b"[ 1 ]", b"\0"]
def text(rng, n):
    return b"".join(rng.choice(PIECES) for _ in range(n))
def word(rng, quoted):
    a = [b"a", b"Key", b"classname", b"origin", b"_light", b"", b"x y", b" pad", b"pad ", b"\tt\t", b"1 2 3", b"\\n", b"a\\\"b", b"\\b!", b"\\\\", b"{", b"}", b"//", b";", b"c:\\d\\e", b"\xe9\xff", b"new\nline"]
    w = rng.choice(a)
    if quoted:
        return b'"' + w + b'"'
    w = w.replace(b" ", b"").replace(b"\n", b"").replace(b"\t", b"").replace(b"\xe9\xff", b"")
    return w or b"w"
def entities(rng):
    s = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s += rng.choice([b"", b" ", b"// note { \"\n", b"; x\n"]) + b"{" + rng.choice([b"\n", b" ", b"\r\n"])
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            q = rng.random() < 0.85
            s += word(rng, q) + rng.choice([b" ", b"\n", b"\t", b""] if q else [b" ", b"\n"]) + word(rng, q) + rng.choice([b"\n", b"\n", b" ", b" // c\n", b"\r\n"])
        s += b"}" + rng.choice([b"\n", b" ", b"", b"\n\n"])
    k = rng.random()
    if k < 0.25 and s:
        # damaged: a piece cut out, doubled or put in
        p = rng.randrange(len(s))
        q = min(len(s), p + rng.choice([1, 1, 2, 5, 100]))
        s = rng.choice([s[:p] + s[q:], s[:p], s[:p] + rng.choice(PIECES) + s[p:], s[:q] + s[p:q] + s[q:]])
    return s

def check(c):
    rng = c.rng
    lines, items = [], []
    A = [b'"', b"\\", b"/", b";", b" ", b"\n", b"a", b"n"]
    texts = [b"".join(t) for n in range(0, 5 if c.quick else 6) for t in itertools.product(A, repeat=n)]
    if c.quick:
        texts = texts[:600] + rng.sample(texts[600:], 1800)
    texts = [(t, None) for t in texts] + [(text(rng, rng.choice([2, 4, 8, 16, 30])), None) for _ in range(c.n(5000, 60000))]
    for t, _ in texts:
        ops = []
        depth = 0
        for _ in range(rng.choice([4, 8, 12, 20])):
            k = rng.random()
            if k < 0.5:
                ops.append("0")
            elif k < 0.8:
                ops.append(str(rng.choice([1, 2, 4, 8, 9, 10, 12, 6, 4, 2])))
            elif k < 0.87:
                ops.append("u")
                depth += 1
            elif k < 0.93 and depth:
                ops.append("o")
                depth -= 1
            else:
                ops.append("e")
        lines.append("t %s %s" % (hx(t), " ".join(ops)))
        items.append(("t", t, ops))
    for _ in range(c.n(6000, 60000)):
        t = entities(rng) if rng.random() < 0.8 else text(rng, rng.choice([3, 8, 20]))
        lines.append("e " + hx(t))
        items.append(("e", t, None))
    keys = [b"a", b"A", b"origin", b"Origin", b"x", b"", b"_y"]
    vals = [b"", b"1", b"-2", b"+7", b"12abc", b" 5", b"abc", b"1 2 3", b"1.5 -2.25 3", b"4 5", b"0.125", b"-0.5x", b"7.75 8 9 10", b"- 1", b"3\n4\n5"]
    for _ in range(c.n(3000, 20000)):
        ops, have = [], set()
        for _ in range(rng.choice([3, 6, 12])):
            o = rng.choice("sssrngghifvv")
            k = rng.choice(keys)
            if o == "s":
                ops.append((o, k, rng.choice(vals)))
                have.add(k)
            elif o == "r":
                ops.append((o, k, None))
                have.discard(k)
            elif o == "n":
                free = [x for x in keys if x not in have]
                if free:
                    to = rng.choice(free)
                    ops.append((o, k, to))
                    if k in have:
                        have.discard(k)
                        have.add(to)
            else:
                ops.append((o, k, None))
        lines.append("d " + " ".join(o + " " + hx(k) + ((" " + hx(v)) if o in "sn" else "") for o, k, v in ops))
        items.append(("d", None, ops))
    f = os.path.join(c.scratch, "in.txt")
    open(f, "w").write("\n".join(lines) + "\n")
    got = {}
    for variant in ("std", "asan"):
        exe = c.build("enttext", variant=variant)["enttext"]
        rc, out = vlib.run([exe], stdin=open(f), timeout=300)
        got[variant] = [l for l in out.split("\n")]
        if rc != 0:
            k = len([l for l in got[variant] if l and not l.startswith("=")])
            c.violation("C13 the parser ended with %s (%s) near input %d: %s\n%s" % (rc, variant, k, [x for x in lines[max(0, k - 1):k + 1]], out[out.find("ERROR: "):][:2500]), [f])
            return
    if got["std"] != got["asan"]:
        k = [i for i, (a, b) in enumerate(zip(got["std"], got["asan"])) if a != b][0]
        c.violation("C13 the outcome of %s depends on what lies beyond the text: %s / %s" % (lines[k], got["std"][k], got["asan"][k]), [f])
        return
    def ents(ws):
        if ws == ["x"]:
            return None
        out, k = [], 1
        for _ in range(int(ws[0])):
            k += 1
            e = []
            while ws[k] != ")":
                e.append([un(ws[k]), un(ws[k + 1])])
                k += 2
            k += 1
            out.append(e)
        return out
    cases = []
    for (t, txt, ops), g in zip(items, got["std"]):
        if t == "t":
            case = {"t": "t", "text": list(txt), "nolines": False, "ops": []}
            # the parser does not count the lines inside of quotes
            case["nolines"] = txt.count(b'"') > 0 and b"\n" in txt
            g = g.split()
            for k, op in enumerate(ops):
                o = {"f": {"u": -1, "o": -2, "e": -3}.get(op), "x": False, "r": False, "t": [], "q": False, "l": 0}
                if o["f"] is None:
                    o["f"] = int(op)
                if k >= len(g):
                    break
                if g[k] == "x":
                    o["x"] = True
                elif op == "e":
                    o["r"] = g[k] == "e1"
                elif op not in "uo":
                    r, tok, q, l = g[k].split(":")
                    o.update(r=r == "1", t=un(tok), q=q == "1", l=int(l))
                case["ops"].append(o)
        elif t == "e":
            case = {"t": "e", "text": list(txt), "x": g == "x", "ops": [0], "ents": [], "written": [], "back": [], "backx": False}
            if g != "x":
                a, w, b = g.split(" | ")
                back = ents(b.split())
                case.update(ents=ents(a.split()), written=un(w), back=back or [], backx=back is None)
        else:
            a, b = g.split("| ")
            res = a.split()
            case = {"t": "d", "ops": []}
            for o, k, v in ops:
                if o in "sn":
                    case["ops"].append({"o": o, "k": list(k), "v": list(v)})
                elif o == "r":
                    case["ops"].append({"o": o, "k": list(k), "v": []})
                else:
                    x = res.pop(0)
                    case["ops"].append({"o": o, "k": list(k), "v": un(x) if o == "g" else [int(y) for y in x.split(",")]})
            case["ops"].append({"o": "all", "k": [], "v": ents(b.split())[0]})
        cases.append(case)
    c.cov["texts_tokenised"] = sum(1 for x in items if x[0] == "t")
    c.cov["entity_texts"] = sum(1 for x in items if x[0] == "e")
    c.cov["dictionary_histories"] = sum(1 for x in items if x[0] == "d")
    c.cov["refused"] = sum(1 for x in got["std"] if x == "x")
    c.sample({"text": repr(items[900][1]), "calls": items[900][2], "result": got["std"][900]})
    k = next(i for i, x in enumerate(items) if x[0] == "e" and len(x[1]) > 40)
    c.sample({"text": repr(items[k][1]), "result": got["std"][k]})
    for k, inv, trace in vlib.tlc_cases(c, "EntText", ["Agrees"], cases, weight=lambda x: len(x["ops"]) + len(x.get("text", [])) / 4):
        v = vlib.tlc_values(trace, "verdict")
        c.violation("C13 %s: the parser or dictionary and the grammar disagree on %s\ntext %r\nreal: %s\nstep %s" % (
            v[-1] if v else inv, lines[k], items[k][1], got["std"][k], vlib.tlc_values(trace, "i")[-1:]), [f])
    c.assumptions += ["bytes above 127 in bare words are left open", "rename is only asked for names not in use"]

if __name__ == "__main__":
    vlib.main(check, "C13")
