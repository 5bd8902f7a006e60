"""C10: vis killed at any operation on its state files, resumed, killed again, with the world changing in between; the histories
are replayed on VisFiles.tla, the final visibility judged by PortalWorld.tla"""
import os, sys, shutil, struct, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, pworld, visrun, bspread, bspfmt

def session(exe, path, d, ev, th, dist, crash, part, extra=()):
    """one run of vis; appends its events; returns (rc, log)"""
    log = os.path.join(d, "ops")
    if os.path.exists(log):
        os.unlink(log)
    env = {"VSHIM_STEP": "400", "VSHIM_LOG": log, "VSHIM_MATCH": "w.vi0:w.vis"}
    if crash:
        env.update({"VSHIM_CRASH": str(crash), "VSHIM_PART": str(part)})
    rc, out = visrun.run(exe, path, (["-visdist", str(dist)] if dist else []) + list(extra), th, env)
    ops = []
    if os.path.exists(log):
        for l in open(log):
            ops.append("write" if l.split()[1] in ("write", "writev") else "remove" if l.split()[1] in ("remove", "unlink") else l.split()[1])
    ev.append({"t": "start", "dist": dist})
    died = rc == 137
    body, last = (ops[:-1], ops[-1]) if died else (ops, None)
    if body and body[0] == "rename":
        ev.append({"t": "rename"})
        body = body[1:]
    if not (died and last == "rename" and not body):
        ev.append({"t": "resumed" if "Loaded previous state" in out else "fresh"})
    ev += [{"t": o} for o in body]
    ev.append({"t": "die", "o": last} if died else {"t": "end"})
    return rc, out, len(ops)

def check(c):
    exe = c.build("vis")["vis"]
    rng = c.rng
    jobs = []
    for i in range(c.n(48, 400)):
        fmt = rng.choice(visrun.Q2FORMATS if i % 3 == 2 else visrun.Q1FORMATS)
        # a small world is crashed at every operation, larger ones at some
        w = pworld.gen(rng, n=[2, 2, 1] if i % 4 == 0 else None, dens=0.1 if i % 4 == 0 else None, maxleafs=4 if i % 4 == 0 else 40, affine=False)
        if i % 24 == 5:
            # rows longer than the run lengths of the state file can count
            w = pworld.gen(rng, n=[14, 14, 13], dens=0.02, maxleafs=2200 + rng.randrange(300), affine=False, merge=0)
            w.open = rng.sample(w.open, 40) if i == 5 else w.open[:700:5]
        jobs.append((i, w, fmt, rng.randrange(10**9)))
    def go(j):
        i, w, fmt, seed = j
        r = random.Random(seed)
        q2 = bspfmt.is_q2(fmt)
        d = c.dir("%d" % i)
        path = visrun.put(d, w, fmt, r)
        orig = open(path, "rb").read()
        D = r.choice([60, 120, 200])
        case = pworld.describe(w, visdist=D)
        case["q2"] = q2
        big = w.ncl > 1000
        case["rays"] = [] if big else pworld.rays(w, r, 50)
        case["runs"] = []
        hist = []
        vis, vi0 = os.path.join(d, "w.vis"), os.path.join(d, "w.vi0")
        def clear():
            for f in (vis, vi0):
                if os.path.exists(f):
                    os.unlink(f)
            open(path, "wb").write(orig)
        def rec(name, vd, same):
            x = visrun.record(path, w, q2, name, vd=vd, same=same)
            x["what"] = name
            x["read"], x["sees"] = [], []
            case["runs"].append(x)
        # what uninterrupted runs give
        nops = 0
        for dist in (0, D):
            clear()
            ev = []
            rc, out, nops = session(exe, path, d, ev, 1, dist, 0, 0)
            if rc != 0:
                return j, None, None, "vis ended with %s\n%s" % (rc, out[-1500:])
            rec("uninterrupted, visdist %d" % dist, dist > 0, 0)
            hist.append({"ev": ev, "what": "uninterrupted"})
        if i % 4 == 0:
            plans = [[(n, r.choice([0, 100, 500, 990]), 1, 0, "none")] for n in range(1, nops + 1)]
            plans = r.sample(plans, min(len(plans), c.n(34, 200)))
        else:
            plans = []
            for _ in range(2 if big else c.n(12, 24)):
                p = []
                for _ in range(1 if big else r.choice([1, 1, 2, 3])):
                    if big:
                        p.append((r.randrange(nops // 2, nops), 500, 1, 0, "none"))
                        continue
                    p.append((r.randrange(1, max(2, nops // r.choice([1, 1, 2, 4]))), r.choice([0, 3, 100, 500, 990]), r.choice([1, 1, 1, 2, 4]), r.choice([0, 0, 0, D]),
                              r.choice(["none", "none", "none", "touch", "truncate", "other"])))
                plans.append(p)
        for p in plans:
            clear()
            ev = []
            what = []
            single = True
            for crash, part, th, dist, ext in p:
                rc, out, _ = session(exe, path, d, ev, th, dist, crash, part)
                what.append("killed at operation %d (%d/1000 of it) -threads %d -visdist %d" % (crash, part, th, dist) if rc == 137 else "ran to the end")
                single &= th == 1
                if rc not in (0, 137):
                    return j, None, None, "vis ended with %s after %s\n%s" % (rc, what, out[-1500:])
                if ext == "touch":
                    t = os.path.getmtime(path[:-4] + ".prt") - 5
                    for f in (vis, vi0):
                        if os.path.exists(f):
                            os.utime(f, (t, t))
                    ev.append({"t": "touch"})
                elif ext == "truncate" and os.path.exists(vis) and os.path.getsize(vis):
                    n = os.path.getsize(vis)
                    os.truncate(vis, min(n - 1, r.choice([0, 1, 19, 20, 21, n - 1, n // 2, r.randrange(n)])))
                    ev.append({"t": "truncate"})
                elif ext == "other" and os.path.exists(vis):
                    # a state for a portal file with another number of portals or clusters, or another version of the format
                    b = bytearray(open(vis, "rb").read())
                    if len(b) >= 20:
                        k = r.choice([0, 4, 8])
                        struct.pack_into("<I", b, k, struct.unpack_from("<I", b, k)[0] + 1)
                        open(vis, "wb").write(b)
                        before = open(path, "rb").read()
                        rc, out, _ = session(exe, path, d, [], 1, dist, 0, 0)
                        what.append("state of another portal file")
                        if rc == 0 and "Loaded previous state" in out:
                            return j, None, None, "vis resumed from a state file for another portal file or version (%s)" % what
                        if rc != 0 and open(path, "rb").read() != before:
                            return j, None, None, "vis refused a state file and damaged the BSP (%s)" % what
                        clear()
                        ev += [{"t": "start", "dist": 0}, {"t": "remove"}, {"t": "open"}, {"t": "die", "o": "write"}, {"t": "start", "dist": 0}, {"t": "open"}, {"t": "rename"}, {"t": "remove"}, {"t": "end"}]
                what.append(ext)
                open(path, "wb").write(orig)
            th = 1 if big else r.choice([1, 1, 1, 4])
            dist = 0 if big else r.choice([0, 0, D])
            rc, out, _ = session(exe, path, d, ev, th, dist, 0, 0)
            if rc != 0:
                return j, None, None, "the last run ended with %s after %s\n%s" % (rc, what, out[-1500:])
            single &= th == 1
            name = "; ".join(what) + "; then -threads %d -visdist %d" % (th, dist)
            rec(name, dist > 0, (2 if dist else 1) if single else 0)
            hist.append({"ev": ev, "what": name})
        return j, case, hist, None
    cases, hists, meta, hmeta = [], [], [], []
    for j, case, hist, err in vlib.pmap(go, jobs):
        fs = [os.path.join(c.scratch, str(j[0]), "w.bsp"), os.path.join(c.scratch, str(j[0]), "w.prt")]
        if err:
            c.violation("C10 world %d (%s): %s" % (j[0], j[2], err), fs)
            continue
        cases.append(case)
        meta.append(fs)
        hists += hist
        hmeta += [fs] * len(hist)
        c.count("histories", len(hist))
        c.count("resumed", sum(1 for h in hist for e in h["ev"] if e["t"] == "resumed"))
    c.sample(hists[3])
    c.sample(hists[-1]["what"])
    for k, inv, trace in vlib.tlc_cases(c, "VisFiles", ["ResumesOnlyWhatIsGood"], hists):
        c.violation("C10 %s: vis resumed from a state that is not whole, current and for the same limit: %s\n%s" % (inv, hists[k]["what"], trace[-1500:]), hmeta[k], data=hists[k])
    for k, inv, trace in vlib.tlc_cases(c, "PortalWorld", ["RaysAreOpen", "Readable", "Sound", "SeesItself", "OnlyConnected", "SameAsFirst"], cases, weight=lambda x: len(x["runs"]) * x["nl"]):
        if inv == "RaysAreOpen":
            raise vlib.CheckError("the search delivered a sight line that is not open\n" + trace[-1500:])
        kk = vlib.tlc_values(trace, "k")
        c.violation("C10 %s: %s\n%s" % (inv, cases[k]["runs"][int(kk[-1]) - 1]["what"], trace[-2500:]), meta[k])
    c.assumptions += ["a kill is modelled as ending the process at an operation on its state files (with any part of a write let through) without any cleanup",
                      "killing vis while it writes the BSP itself is outside the property: that destroys its input"]

if __name__ == "__main__":
    vlib.main(check, "C10")
