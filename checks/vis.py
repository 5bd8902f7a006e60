"""C08 (what must be seen is seen), C11 (rows and leaves): real vis runs on portal worlds, judged by PortalWorld.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, pworld, visrun, bspread, bspfmt

INV = {"C08": ["RaysAreOpen", "Readable", "Sound", "SeesItself", "OnlyConnected"],
       "C11": ["RaysAreOpen", "Readable", "InRange", "OneRowPerCluster", "ClosedUnderClusters", "SolidHasNone", "RowIsUnion", "HearIsUnion", "ReadAsWritten", "LeafsSeen"]}

def fmtof(i, rng):
    return rng.choice(visrun.Q2FORMATS) if i % 3 == 2 else rng.choice(visrun.Q1FORMATS)

def plan_runs(prop, c, rng, axis):
    """(name, arguments, threads, shim environment, visdist?, state file?)"""
    full = [["-level", str(rng.randrange(5))], ["-targetchecks", rng.choice(["0", "0.1", "1", "50", "9999"])]]
    runs = [("full", [], 1, {}), ("threads", rng.choice(full), rng.choice([2, 4, 8]), {"VSHIM_DELAY": str(rng.randrange(1, 10**6))})]
    if prop == "C08":
        runs.append(("fast", ["-fast"], rng.choice([1, 4]), {}))
        runs.append(("options", full[0] + full[1], rng.choice([1, 3]), {}))
    return runs

def codec(c, exe):
    rng = c.rng
    rows = []
    A = [0, 1, 255]
    for n in range(1, 6):
        for k in range(len(A) ** n):
            rows.append([A[k // len(A) ** j % len(A)] for j in range(n)])
    for n in list(range(250, 262)) + [509, 510, 511, 512, 513, 765, 1021]:
        for lead in ([], [7], [0, 9]):
            for tail in ([], [1], [0, 0, 128]):
                rows.append(lead + [0] * n + tail)
    for _ in range(c.n(1500, 20000)):
        n = rng.choice([1, 2, 3, 8, 17, 40, 100, 300])
        d = rng.choice([0.05, 0.5, 0.95])
        r = []
        while len(r) < n:
            r += [0 if rng.random() > d else rng.choice([1, 255, rng.randrange(1, 256)])] * rng.choice([1, 1, 1, 2, 5, 60, 256, 300])
        rows.append(r[:n])
    lines, items = [], []
    h = lambda b: bytes(b).hex()
    for r in rows:
        lines.append("c " + h(r))
        items.append({"t": "c", "row": r})
    for r in rng.sample(rows, 900):
        coded, j = [], 0
        while j < len(r):
            if r[j]:
                coded.append(r[j])
                j += 1
                continue
            m = 1
            while j + m < len(r) and not r[j + m] and m < 255 and rng.random() < 0.8:
                m += 1
            coded += [0, m]
            j += m
        lines.append("d %d %s" % (len(r), h(coded)))
        items.append({"t": "d", "coded": coded})
        if len(coded) > 1:
            bad = list(coded)
            k = rng.randrange(len(bad))
            bad[k:k + rng.choice([0, 1])] = rng.choice([[0], [0, 255], [0, 0], []])
            if bad:
                lines.append("d %d %s" % (len(r), h(bad)))
                items.append({"t": "x", "n": len(r)})
    f = os.path.join(c.scratch, "rows.txt")
    open(f, "w").write("\n".join(lines) + "\n")
    rc, out = vlib.run([exe], stdin=open(f), timeout=120)
    got = out.split("\n")
    if rc != 0 or len([g for g in got if g]) != len(lines):
        c.violation("C11 the row routines ended with %s after %d of %d rows: %s" % (rc, len(got) - 1, len(lines), lines[min(len(got) - 1, len(lines) - 1)][:300]), [f])
        return
    ub = lambda s: [] if s == "-" else list(bytes.fromhex(s))
    for it, g in zip(items, got):
        g = g.split()
        it["back"] = ub(g[-1])
        if it["t"] == "c":
            it["coded"] = ub(g[0])
    c.cov["coded_rows"] = len(items)
    blocks = [items[j:j + 100] for j in range(0, len(items), 100)]
    for k, inv, trace in vlib.tlc_cases(c, "RowCodec", ["Coded", "ReadBack", "ReadAny", "Contained"], blocks, maxviol=1):
        ii = int(vlib.tlc_values(trace, "i")[-1])
        c.violation("C11 %s: row %s" % (inv, str(blocks[k][ii - 1])[:600]), data=blocks[k][ii - 1])

def check_for(prop):
    def check(c):
        progs = c.build("vis", "rowcodec") if prop == "C11" else c.build("vis")
        exe = progs["vis"]
        if prop == "C11":
            codec(c, progs["rowcodec"])
        rng = c.rng
        jobs = []
        for i in range(c.n(800 if prop == "C08" else 140, 4000)):
            fmt = fmtof(i, rng)
            q2 = bspfmt.is_q2(fmt)
            big = prop == "C11" and i % 35 == 7
            if big:
                w = pworld.gen(rng, n=[rng.randrange(10, 15), 14, 13], dens=0.02, maxleafs=2600, affine=False)
                keep = set(rng.sample(range(len(w.open)), min(len(w.open), 500)))
                w.open = [o for k, o in enumerate(w.open) if k in keep]
            else:
                w = pworld.gen(rng, maxleafs=70, affine=(i % 4 != 0))
            vd = rng.choice([60, 100, 160, 260]) if i % 4 == 0 and prop == "C08" else 0
            kind = None
            if not q2:
                kind = rng.choice(["PRT2", "PRT1-AM"]) if len(w.cells) != w.ncl else rng.choice(["PRT1", "PRT1", "PRT1-AM"])
            runs = plan_runs(prop, c, rng, i)[:1 if big else 9]
            if vd:
                runs.append(("visdist", ["-visdist", str(vd)], rng.choice([1, 2]), {}))
            jobs.append((i, w, fmt, q2, kind, vd, runs, big, rng.randrange(10**9)))
        def go(j):
            i, w, fmt, q2, kind, vd, runs, big, seed = j
            import random
            r = random.Random(seed)
            d = c.dir("%d" % i)
            out = []
            path = visrun.put(d, w, fmt, r, kind=kind)
            orig = open(path, "rb").read()
            case = pworld.describe(w, visdist=vd)
            case["q2"] = q2
            case["rays"] = pworld.rays(w, r, 0 if big else 60)
            case["runs"] = []
            for name, args, th, env in runs:
                if name != "full":
                    open(path, "wb").write(orig)
                state = "-fast" not in args
                rc, log = visrun.run(exe, path, args + ["-nostate"] + (["-noautoclean"] if state else []), th, env)
                what = "vis %s -threads %d on world %d (%s, %s)" % (" ".join(args), th, i, fmt, kind)
                if rc != 0:
                    return j, None, (what, "ended with %s\n%s" % (rc, log[-1500:]))
                try:
                    rec = visrun.record(path, w, q2, name, vd=(name == "visdist"), state=state and not big)
                except (bspread.BadBSP, OSError, KeyError) as e:
                    return j, None, (what, "unreadable: %s" % e)
                rec["what"] = what
                rec["read"], rec["sees"] = [], []
                if prop == "C11" and not big:
                    rc, log = vlib.run([progs["rowcodec"], path])
                    if rc != 0:
                        return j, None, (what, "reading it back ended with %s\n%s" % (rc, log[-800:]))
                    for l in log.split("\n"):
                        l = l.split()
                        if l[:1] == ["row"]:
                            rec["read"].append({"key": int(l[1]), "row": [8 * b + x for b, v in enumerate(bytes.fromhex(l[2])) for x in range(8) if v >> x & 1]})
                        elif l[:1] == ["sees"]:
                            rec["sees"].append([int(x) for x in l[2:]])
                case["runs"].append(rec)
            open(path, "wb").write(orig)
            return j, case, None
        cases, meta = [], []
        nrays = 0
        for j, case, err in vlib.pmap(go, jobs):
            fs = [os.path.join(c.scratch, str(j[0]), "w.bsp"), os.path.join(c.scratch, str(j[0]), "w.prt")]
            if err:
                c.violation("%s %s: %s" % (prop, err[0], err[1]), fs)
                continue
            c.count("vis_runs", len(case["runs"]))
            nrays += len(case["rays"])
            cases.append(case)
            meta.append(fs)
        c.cov["sight_lines"] = nrays
        c.cov["worlds"] = len(cases)
        for k in (0, 1):
            if k < len(cases):
                c.sample({"clusters": cases[k]["nc"], "leafs": cases[k]["nl"], "portals": len(cases[k]["ports"]), "runs": [r["what"] for r in cases[k]["runs"]]})
        for k, inv, trace in vlib.tlc_cases(c, "PortalWorld", INV[prop], cases, weight=lambda x: len(x["rays"]) + sum(len(r["vis"]) + len(r["state"]) for r in x["runs"]) / 30 + x["nl"] * x["nl"] / 60):
            if inv == "RaysAreOpen":
                raise vlib.CheckError("the search delivered a sight line that is not open\n" + trace[-1500:])
            kk = vlib.tlc_values(trace, "k")
            run = cases[k]["runs"][int(kk[-1]) - 1]["what"] if kk and 0 < int(kk[-1]) <= len(cases[k]["runs"]) else ""
            c.violation("%s %s: %s: the visibility data contradicts the world\n%s" % (prop, inv, run, trace), meta[k])
        c.assumptions += ["sight lines keep 2 units from the edges of the openings (vis works with an epsilon of 0.1)",
                          "the worlds are boxes under integer linear maps; their portal files and BSPs are written directly, in every format and dialect"]
    return check

if __name__ == "__main__":
    vlib.main(check_for(sys.argv[1]), sys.argv[1])
