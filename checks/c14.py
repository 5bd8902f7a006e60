"""C14: the search path and the archives, against FileSearch.tla"""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

def by(s):
    return list(s.encode("latin-1"))
def hx(s):
    return s.encode("latin-1").hex() or "-"
FILES = ["a.txt", "maps/start.bsp", "gfx/palette.lmp", "textures/e1u1/box.wal", "light", "textures/light", "BOX", "Maps/Start.bsp", "progs", "maps/" + "x" * 51, "q" * 16]
PLACES = ["id1", "mod", "id1/sub", "base"]
ARCHS = ["id1/pak0.pak", "id1/PAK1.PAK", "mod/pak0.pak", "gfx.wad", "id1/tex.wad", "mod/tex.WAD", "notes.txt", "base/maps.pak.old", "a.pak"]

def content(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 9])))
def archive(rng, pak):
    es = []
    for n in rng.sample(FILES, rng.randrange(1, 8)):
        n = n.encode()[:56 if pak else 16]
        if n.lower() not in [e[0].lower() for e in es]:
            es.append((n, content(rng)))
    head = 12
    body, d = b"", b""
    first = rng.random() < 0.3
    pos = head + (len(es) * (64 if pak else 32) if first else 0)
    junk = bytes([0, 65, 255, 7])
    for n, b in es:
        fill = lambda k: (n + b"\0" * 80)[:k] if rng.random() < 0.8 or len(n) >= k else (n + b"\0" + junk * 20)[:k]
        if pak:
            d += fill(56) + struct.pack("<II", pos, len(b))
        else:
            d += struct.pack("<IIIBBBB", pos, len(b), len(b), rng.choice([0x44, 0x43, 0x42]), 0, 0, 0) + fill(16)
        body += b
        pos += len(b)
    at = 12 if first else 12 + len(body)
    magic = b"PACK" if pak else rng.choice([b"WAD2", b"WAD3"])
    h = magic + (struct.pack("<II", at, len(d)) if pak else struct.pack("<II", len(es), at))
    out = h + (d + body if first else body + d)
    k = rng.random()
    if k < 0.12:
        out = out[:rng.randrange(len(out))]
    elif k < 0.24:
        # one number replaced
        size = 64 if pak else 32
        spots = [4, 8] + [at + size * i + o for i in range(len(es)) for o in ((56, 60) if pak else (0, 4))]
        s = rng.choice(spots)
        v = rng.choice([0, 1, 5, 12, len(out), len(out) - 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 1000])
        out = out[:s] + struct.pack("<I", v) + out[s + 4:]
    elif k < 0.28:
        out = rng.choice([b"PACX", b"WAD4", b"IWAD"]) + out[4:]
    return out
def world(rng):
    files = {}
    for a in rng.sample(ARCHS, rng.randrange(2, 6)):
        e = a.lower()
        files[a] = archive(rng, "pak" in e or (".txt" in e and rng.random() < 0.5))
    for p in rng.sample(PLACES, rng.randrange(1, 4)) + [""]:
        for f in rng.sample(FILES, rng.randrange(0, 6)):
            files[(p + "/" if p else "") + f] = content(rng)
    dirs = {"id1", "mod"} | set(rng.sample(["base", "id1/sub", "light", "id1/light", "mod/textures/light", "id1/BOX"], 3))
    # no file where a directory is, and the other way round
    for f in list(files):
        up = [f[:i] for i, ch in enumerate(f) if ch == "/"]
        if f in dirs or any(u in files for u in up) or any(x.startswith(f + "/") for x in list(files) + list(dirs)):
            del files[f]
    for f in files:
        for i, ch in enumerate(f):
            if ch == "/":
                dirs.add(f[:i])
    for d in list(dirs):
        for i, ch in enumerate(d):
            if ch == "/":
                dirs.add(d[:i])
    return files, dirs
def history(rng, files, dirs):
    ops = []
    archs = [f for f in files if f in ARCHS]
    for _ in range(rng.choice([6, 12, 20])):
        o = rng.choice("aaawwlllllsr") if rng.random() < 0.97 else "clear"
        p = ""
        if o == "a":
            p = rng.choice(sorted(dirs) + archs * 3 + ["nowhere", "nowhere/a.pak", "nowhere/gfx.wad", "nowhere/id1", "", "a.txt"])
        elif o != "clear":
            p = rng.choice(FILES if rng.random() < 0.85 else sorted(files) + sorted(dirs) + ["none.txt", "id1"])
            if rng.random() < 0.15:
                p = p.swapcase()
            if rng.random() < (0.25 if o in "wl" else 0.7):
                p = rng.choice(archs + PLACES + ["a.txt", "nowhere.pak"] if rng.random() < 0.8 else sorted(files)) + "/" + p
        ops.append({"o": o, "f": rng.random() < 0.5, "abs": rng.random() < 0.15 and p != "", "p": p})
    return ops
def comps(s):
    return [by(x) for x in s.split("/") if x]

def check(c):
    rng = c.rng
    runs = []
    root = os.path.join(c.scratch, "fs")
    f = os.path.join(c.scratch, "in.txt")
    with open(f, "w") as out:
        for n in range(c.n(1500, 12000)):
            files, dirs = world(rng)
            ops = history(rng, files, dirs)
            R = os.path.join(root, str(n))
            os.makedirs(R)
            for d in sorted(dirs):
                os.makedirs(os.path.join(R, d), exist_ok=True)
            for p, b in files.items():
                open(os.path.join(R, p), "wb").write(b)
            runs.append((R, files, dirs, ops))
            out.write("cd 0 %s\n" % hx(R))
            for o in ops:
                out.write("%s %d %s\n" % (o["o"], o["f"], hx((R + "/" if o["abs"] else "") + o["p"])))
    got = {}
    for variant in ("std", "asan"):
        exe = c.build("fsearch", variant=variant)["fsearch"]
        rc, text = vlib.run([exe], stdin=open(f), timeout=400)
        got[variant] = [l for l in text.split("\n") if l]
        n = sum(len(r[3]) + 1 for r in runs)
        if rc != 0 or len(got[variant]) < n:
            k = len([l for l in got[variant] if not l.startswith(("=", " "))])
            c.violation("C14 looking files up ended with %s (%s)\n%s" % (rc, variant, text[max(0, text.find("ERROR: ")):][:3000]), [f])
            return
    if got["std"] != got["asan"]:
        k = [i for i, (a, b) in enumerate(zip(got["std"], got["asan"])) if a != b][0]
        c.violation("C14 the outcome depends on what lies beyond an archive's data: line %d, %s / %s" % (k + 1, got["std"][k][:300], got["asan"][k][:300]), [f])
        return
    it = iter(got["std"])
    cases = []
    for R, files, dirs, ops in runs:
        assert next(it) == "cd"
        def path(h):
            s = bytes.fromhex(h).decode("latin-1") if h != "-" else ""
            return comps(s[len(R):] if s.startswith(R) else s)
        cs = {"files": [{"p": comps(p), "d": list(b)} for p, b in files.items()], "dirs": [comps(d) for d in sorted(dirs)], "ops": []}
        for o in ops:
            w = next(it).split(" ")
            q = {"o": o["o"], "f": o["f"], "p": {"abs": o["abs"], "c": comps(o["p"])}, "ok": w[0] not in ("none", "x"), "q": [], "n": [], "d": [], "x": False}
            if w[0] == "x":
                q["o"] = "threw"
                c.violation("C14 %s threw %s" % (o, w), [f], data={"files": sorted(files)})
                return
            if q["ok"]:
                if o["o"] == "a":
                    q.update(q=path(w[0]), x=w[1] == "1")
                elif o["o"] in "ws":
                    q.update(q=path(w[0]), n=path(w[1]))
                elif o["o"] == "l":
                    q["d"] = list(bytes.fromhex(w[0][1:])) if w[0] != "=-" else []
                elif o["o"] == "r":
                    q["q"] = path(w[0])
            cs["ops"].append(q)
        cases.append(cs)
    ops = [q for cs in cases for q in cs["ops"]]
    c.cov["search_histories"] = len(cases)
    c.cov["lookups"] = sum(1 for q in ops if q["o"] in "wl")
    c.cov["lookups_found"] = sum(1 for q in ops if q["o"] in "wl" and q["ok"])
    c.cov["places_added"] = sum(1 for q in ops if q["o"] == "a" and q["ok"])
    c.cov["places_refused"] = sum(1 for q in ops if q["o"] == "a" and not q["ok"])
    c.sample({"files": sorted(runs[0][1]), "history": runs[0][3]})
    for k, inv, trace in vlib.tlc_cases(c, "FileSearch", ["Agrees", "NoDoubles", "NoDoubleArchives"], cases, weight=lambda x: len(x["ops"]) * 3):
        i = int((vlib.tlc_values(trace, "i") or ["1"])[-1]) - 1
        R, files, dirs, o = runs[k]
        c.violation("C14 %s %s: after %s\nfiles %s\nthe code says %s\nsearch path %s %s" % (inv, vlib.tlc_values(trace, "verdict")[-1:], [(x["o"], x["f"], x["abs"], x["p"]) for x in o[:i]], {p: b.hex() for p, b in files.items()},
                    cases[k]["ops"][i - 1], vlib.tlc_values(trace, "dirs")[-1:], vlib.tlc_values(trace, "archs")[-1:]), [f])
    c.assumptions += ["paths without . and .. components", "the file system does not change between looking and loading"]

if __name__ == "__main__":
    vlib.main(check, "C14")
