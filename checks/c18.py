"""C18: Progress.tla -- all interleavings of the progress display and the parallel loops; recorded histories, loops, prints and statistics of the real code"""
import os, sys, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, vbuild

MC = "SPECIFICATION Spec\nCONSTANT Workers = {%s}\nCONSTANT N = %d\nCONSTANT Loops = %d\nCONSTANT Throws = {%s}\nCONSTANT Guard = \"%s\"\nCONSTANT Waits = %s\n" + \
     "".join("INVARIANT %s\n" % x for x in ("OneInside", "Forward", "Once", "EndsOnce", "Left", "Zero")) + "PROPERTY Completes\n"

def history(rng, length):
    """ops [name, t, count, max, elapsed, hold, u]; the state is followed only as far as is needed to keep the history playable"""
    ops = []
    holder = wait = None
    running, last, spun, clock = False, -1, False, True
    mx = rng.choice([1, 2, 3, 7, 50, 99, 101, 150, 333, 4096])
    c = 0
    while len(ops) < length or holder is not None:
        if len(ops) > length + 4:
            rel = True
        else:
            rel = holder is not None and rng.random() < 0.35
        if rel:
            if holder is None:
                break
            u = wait[0] if wait else -1
            ops.append(["release", holder, 0, 0, 0, 0, u])
            holder = None
            if wait:
                if wait[1] and wait[2]:
                    holder = wait[0]
                running, last, wait = False, -1, None
            continue
        if holder is None and rng.random() < 0.06:
            clock = rng.random() < 0.6
            ops.append(["mask", int(clock), 0, 0, 0, 0, -1])
            continue
        free = [t for t in range(4) if t != holder and not (wait and t == wait[0])]
        t = rng.choice(free)
        k = rng.random()
        hold = int(rng.random() < 0.4)
        el = int(rng.random() < 0.8)
        if k < 0.1:
            mx = rng.choice([1, 2, 3, 7, 50, 99, 101, 150, 333, 4096, -1, -1])
            c = 0
        if mx < 0 and k < 0.8:
            cc = rng.randrange(50)
        elif k < 0.55:
            c = min(c + rng.choice([1, 1, 2, mx // 7 + 1]), max(mx - 1, 0))
            cc = c
        elif k < 0.8:
            cc = rng.randrange(mx)
        elif wait:
            continue
        else:
            cc = mx
        ops.append(["call", t, cc, mx, el, hold, -1])
        if holder is not None:
            if cc == mx:
                wait = (t, hold, el and clock)
                ops[-1][6] = 1
            continue
        if not running:
            running, last, spun = True, -1, False
        if cc == mx:
            running, last = False, -1
            if hold and el and clock:
                holder = t
        elif mx < 0:
            # shown at most every 100 ms, so nothing is held on it once it may be too early
            if spun:
                ops[-1][5] = 0
            elif hold:
                holder = t
            spun = True
        else:
            p = 100 * cc // mx
            if p > last:
                last = p
                if hold:
                    holder = t
    return ops

def cut(data, color):
    """one channel's bytes -> <<kind, a, b>> chunks"""
    out = []
    i = 0
    esc = r"(?:\x1b\[[0-9;]*m)*" if color else ""
    rx = re.compile(esc + r"(?:<(\d+) (\d+) (\d) ([a-z]*)>\n|\[ *(\d+)%\]\r|\[100%\] time elapsed: [0-9.e+-]+ ?[a-z]*\n)" + esc)
    while i < len(data):
        m = rx.match(data, i)
        if not m:
            out.append(["junk", 0, 0])
            return out
        if m.group(1) is not None:
            t, l, f, pad = int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4)
            h = (t * 7919 + l * 104729) >> 3
            if f != h % 5 or pad != chr(ord("a") + t % 26) * (h % 90):
                out.append(["junk", 0, 0])
                return out
            out.append(["line", t + 1, l + 1])
        elif m.group(5) is not None:
            out.append(["pct", int(m.group(5)), 0])
        else:
            out.append(["done", 0, 0])
        i = m.end()
    return out

FLAGS = [1, 4, 2, 8, 16]  # the harness' order: DEFAULT VERBOSE PROGRESS PERCENT STAT

def flagbits():
    src = open(os.path.join(vlib.REPO, "include", "common", "log.hh")).read()
    return [1 << int(re.search(r"\b%s = nth_bit\((\d+)\)" % n, src).group(1)) for n in ("DEFAULT", "VERBOSE", "PROGRESS", "PERCENT", "STAT")], 1 << int(re.search(r"CLOCK_ELAPSED = nth_bit\((\d+)\)", src).group(1))

def run(c, exe, lines, name, prefix=(), timeout=300, env=None, log=False):
    src = os.path.join(c.scratch, name + ".txt")
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    out = os.path.join(c.scratch, name + ".out")
    cmd = list(prefix) + [exe, out] + ([os.path.join(c.scratch, name + ".log")] if log else [])
    rc, text = vlib.run(cmd, cwd=c.scratch, timeout=timeout, stdin=open(src), env=env)
    ans = []
    if os.path.exists(out):
        for l in open(out):
            try:
                ans.append(json.loads(l))
            except ValueError:
                break
    return rc, text, ans

def check(c):
    rng = c.rng
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(4)
    big = [("1, 2, 3", 3, 2, "2"), ("1, 2", 5, 2, "1, 3"), ("1, 2", 4, 2, "")] + ([("1, 2, 3", 5, 1, "4"), ("1, 2, 3, 4", 4, 1, ""), ("1, 2, 3, 4", 3, 2, "0, 2")] if c.tier == "thorough" else [])
    mcs = [ex.submit(vlib.tlc, "ProgressMC", MC % (b + ("higher", "TRUE")), timeout=800 if c.quick else 3000, workers=2) for b in big]
    weak = [ex.submit(vlib.tlc, "ProgressMC", MC % (("1, 2", 3, 1, "") + w), timeout=300) for w in (("other", "TRUE"), ("higher", "FALSE"))]
    exe = c.build("progress")["progress"]
    cases = []

    # histories of calls, some held inside
    plans = [history(rng, rng.choice([4, 8, 16, 30])) for _ in range(c.n(400, 6000))]
    lines = []
    for p in plans:
        o = []
        for op in p:
            if op[0] == "call":
                o.append("call %d %d %d %d %d %d" % (op[1], op[2], op[3], op[4], op[5], 1 if op[6] == 1 else 0))
            elif op[0] == "release":
                o.append("release %d %d" % (op[1], op[6]))
            else:
                o.append("mask %d" % op[1])
        lines.append("history " + " ".join(o))
    parts = [list(range(k, len(lines), 6)) for k in range(6)]
    def hrun(k):
        return run(c, exe, [lines[j] for j in parts[k]], "hist%d" % k, timeout=120 if c.quick else 900)
    for k, (rc, text, ans) in enumerate(vlib.pmap(hrun, range(6))):
        if rc or len(ans) != len(parts[k]):
            c.violation("progress calls end with status %s after %d of %d histories: %s" % (rc, len(ans), len(parts[k]), text[-300:]), data={"history": lines[parts[k][min(len(ans), len(parts[k]) - 1)]]})
            return
        for j, a in zip(parts[k], ans):
            cases.append({"kind": "history", "ops": plans[j], "records": a, "src": lines[j]})
    c.sample({"history": lines[0], "records": cases[0]["records"]})

    # parallel loops
    lp = []
    for _ in range(c.n(250, 4000)):
        one = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["for", "sizet", "each", "list", "cons"])
            n = rng.choice([0, 0, 1, 2, 3, 5, 17, 40, 99, 101, 128, 150, 192, 333, 384])
            start = rng.choice([0, 0, 1, 7, 1000] + ([-5] if kind != "sizet" else []))
            th = rng.choice([1, 1, 2, 3, 4, 8])
            thr = sorted({start + rng.randrange(n) for _ in range(rng.choice([1, 1, 3]))}) if n and rng.random() < 0.25 else []
            one.append((kind, th, start, n, rng.choice([0, 0, 2, 5, 20]) if n < 200 else rng.choice([0, 20]), thr))
        lp.append(one)
    lines = ["loops " + " ".join("%s %d %d %d %d %d %s" % (k, th, s, n, d, len(t), " ".join(map(str, t))) for k, th, s, n, d, t in one) for one in lp]
    parts = [list(range(k, len(lines), 3)) for k in range(3)]
    def lrun(k):
        return run(c, exe, [lines[j] for j in parts[k]], "loop%d" % k, timeout=200 if c.quick else 900)
    for k, (rc, text, ans) in enumerate(vlib.pmap(lrun, range(3))):
        if rc or len(ans) != len(parts[k]):
            c.violation("parallel loops end with status %s after %d of %d runs: %s" % (rc, len(ans), len(parts[k]), text[-300:]), data={"loops": lines[parts[k][min(len(ans), len(parts[k]) - 1)]]})
            return
        for j, a in zip(parts[k], ans):
            if len(a) != len(lp[j]):
                raise vlib.CheckError("loops answered %d of %d" % (len(a), len(lp[j])))
            for (kind, th, s, n, d, t), r in zip(lp[j], a):
                ev = sorted([(e[2], [e[0], e[1]]) for e in r["events"]] + [(v[1], ["body", v[0]]) for v in r["visits"]], key=lambda x: x[0])
                cases.append({"kind": "loop", "start": s, "n": n, "threads": th, "throwers": t, "caught": r["caught"], "others": r["others"] if kind == "each" else 0,
                              "log": [e for _, e in ev], "src": lines[j]})

    # prints
    bits, elapsed = flagbits()
    allmask = sum(bits) | elapsed
    for k in range(c.n(14, 120)):
        th, n, color, clock = rng.choice([1, 2, 4, 8]), rng.choice([5, 20, 40]), rng.randrange(2), rng.choice([0, 1, 2])
        mask = allmask
        for b in bits:
            if rng.random() < 0.2 and not (clock and b == bits[3]):
                mask &= ~b
        rc, text, ans = run(c, exe, ["prints %d %d %d %d %d" % (th, n, color, mask, clock)], "print%d" % k, log=True)
        if rc:
            c.violation("printing from %d threads ends with status %s: %s" % (th, rc, text[-300:]))
            return
        def want(f):
            return [[int(bool(f(((t * 7919 + i * 104729) >> 3) % 5))) for i in range(n)] for t in range(th)]
        cases.append({"kind": "prints", "clock": int(clock > 0), "want": want(lambda f: mask & bits[f]), "chunks": cut(text, color), "src": "stdout of prints %d %d %d %d %d" % (th, n, color, mask, clock)})
        logtext = open(os.path.join(c.scratch, "print%d.log" % k), newline="").read()
        head, _, rest = logtext.partition("\n")
        if not re.fullmatch(r"---- progress / ericw-tools .* ----", head):
            rest = "junk"
        cases.append({"kind": "prints", "clock": 0, "want": want(lambda f: mask & bits[f] and f != 3), "chunks": cut(rest, 0), "src": "log of prints %d %d %d %d %d" % (th, n, color, mask, clock)})

    # statistics
    sp = []
    for _ in range(c.n(200, 3000)):
        sp.append([("s%d" % k + rng.choice(["", "x", "_long_name"]), rng.choice([0, 0, 1, 2, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 12345678, 2000000000, rng.randrange(100000)]),
                    int(rng.random() < 0.4), int(rng.random() < 0.2)) for k in range(rng.choice([0, 1, 2, 3, 6]))])
    lines = ["stats %d %d " % (len(s), rng.randrange(2)) + " ".join("%s %d %d %d" % x for x in s) for s in sp]
    rc, text, ans = run(c, exe, lines, "stats")
    if rc or len(ans) != len(sp):
        c.violation("the statistics end with status %s after %d of %d: %s" % (rc, len(ans), len(sp), text[-300:]))
        return
    for s, l, a in zip(sp, lines, ans):
        got = []
        for g in a:
            t = "".join(map(chr, g))
            f, _, body = t.partition("|")
            got.append([ord(x) for x in body] if f == str(bits[4]) else [0])
        cases.append({"kind": "stats", "stats": [{"name": [ord(x) for x in n], "count": k, "zero": z, "warn": w} for n, k, z, w in s], "lines": got, "src": l})

    for ix, inv, trace in vlib.tlc_cases(c, "ProgressTrace", ["Conforms", "Whole", "Explained"], cases, weight=lambda x: 20 + len(x.get("log", ())) ** 1.5 + len(x.get("chunks", ())) + len(x.get("ops", ())) * 2):
        x = cases[ix]
        st = vlib.tlc_values(trace, "i")
        c.violation("%s does not behave as specified (%s at step %s): %s" % (x["kind"], inv, st[-1] if st else "?", x["src"][:400]), data={k: v for k, v in x.items() if k != "want"})

    # the same under ThreadSanitizer
    tsan = c.build("progress", variant="tsan")["progress"]
    sub = ["loops " + " ".join("%s %d %d %d 0 0 " % (k, 8, 0, n) for k, n in (("for", 300), ("each", 192), ("list", 150), ("cons", 192)))] * c.n(3, 20) + \
          ["prints 8 40 %d %d 1" % (k & 1, allmask) for k in range(c.n(3, 20))]
    rc, text, ans = run(c, tsan, sub, "tsan", prefix=["setarch", "-R"], log=True, env={"TSAN_OPTIONS": "exitcode=66"})
    c.count("tsan_runs", len(sub))
    # libtbb is not instrumented and what it hands over looks unsynchronised, so only the logging code's own global state counts
    for rep in text.split("WARNING: ThreadSanitizer:")[1:]:
        tops = re.findall(r"#0 .*", rep)[:2]
        if len(tops) == 2 and all("common/log.cc" in t for t in tops):
            c.violation("data race: " + rep[:1500], data={"commands": sub[:4]})
            break
    if rc and rc != 66:
        c.violation("under ThreadSanitizer the loops end with status %s: %s" % (rc, text[-500:]))

    for w, f in zip(("a display that shows every new value", "a final call that does not wait"), weak):
        r = f.result()
        if r.ok:
            raise vlib.CheckError("the model accepts " + w)
    for f in mcs:
        r = f.result()
        if not r.ok:
            raise vlib.CheckError("the design breaks %s\n%s" % (r.violated, r.trace[-3000:]))
        c.add_tlc(r)
    c.assumptions += ["tbb runs the bodies it is given", "loops of lengths whose percentages are exact in single precision"]

if __name__ == "__main__":
    vlib.main(check, "C18")
