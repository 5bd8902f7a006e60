"""C09: every interleaving of the vis workers on small graphs (VisSchedMC.tla), and recorded runs of the real vis replayed as
behaviours of the same specification (VisTrace.tla)"""
import os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, pworld, visrun, bspread, bspfmt, random

MC = """---- MODULE VisSchedMCx ----
EXTENDS VisSchedMC
G == {%s}
Wk == %s
====
"""
CFG = "SPECIFICATION MCSpec\nINVARIANT NeverLost\nINVARIANT Exact\nINVARIANT SavedIsGood\nINVARIANT LoopFits\nCONSTANT Graphs <- G\nCONSTANT Workers <- Wk\nCONSTANT MaxCrash = %d\n"

def model(c):
    runs = [("<<<<0,1>>, <<1,2>>>>", "{1,2}", 1, []), ("<<<<0,1>>, <<1,2>>>>", "{1,2}", 0, ["Terminates"])]
    if not c.quick:
        runs += [("<<<<0,1>>, <<1,2>>, <<2,0>>>>", "{1,2}", 0, []), ("<<<<0,1>>, <<0,1>>, <<1,2>>>>", "{1,2}", 0, []), ("<<<<0,1>>, <<1,2>>>>", "{1,2,3}", 1, [])]
    def one(r):
        g, w, mc, props = r
        return r, vlib.tlc("VisSchedMCx", CFG % mc + "".join("PROPERTY %s\n" % p for p in props), workers=4, heap="6g", timeout=3000,
                           cwd_files=[("VisSchedMCx.tla", MC % (g, w))])
    for r, res in vlib.pmap(one, runs, 2):
        c.add_tlc(res)
        c.count("model_states", res.states)
        if not res.ok:
            raise vlib.CheckError("the model of the schedule violates %s\n%s" % (res.violated, res.trace[:3000]))

def parse(path):
    out = []
    L = lambda s: [] if s == "-" else [int(x) for x in s.split(",")]
    for line in open(path):
        f = line.split()
        if f[0] == "init":
            out.append({"t": "init", "p": int(f[1]), "s": int(f[2]), "n": int(f[3]), "m": L(f[4]), "v": L(f[5])})
        elif f[0] in ("pick", "flow"):
            out.append({"t": f[0], "p": int(f[1]), "w": int(f[2])})
        elif f[0] == "done":
            out.append({"t": "done", "p": int(f[1]), "w": int(f[2]), "v": L(f[3])})
        elif f[0] == "clear":
            out.append({"t": "clear", "p": int(f[1]), "l": int(f[2])})
        elif f[0] == "assemble":
            out.append({"t": "assemble", "c": int(f[1])})
    return out

def check(c):
    exe = c.build("vis")["vis"]
    model(c)
    rng = c.rng
    jobs = []
    for i in range(c.n(90, 1200)):
        fmt = rng.choice(visrun.Q2FORMATS if i % 3 == 2 else visrun.Q1FORMATS)
        w = pworld.gen(rng, maxleafs=rng.choice([10, 25, 45]))
        jobs.append((i, w, fmt, rng.randrange(10**9)))
    def go(j):
        i, w, fmt, seed = j
        r = random.Random(seed)
        q2 = bspfmt.is_q2(fmt)
        d = c.dir("%d" % i)
        path = visrun.put(d, w, fmt, r)
        case = pworld.describe(w)
        case["q2"] = q2
        case["rays"] = pworld.rays(w, r, 60)
        case["runs"], case["traces"], case["what"] = [], [], []
        plans = [(r.choice([2, 3, 8]), r.choice([["-level", "4"], ["-level", "0"], ["-targetchecks", "100"], ["-targetchecks", "0"]])),
                 (r.choice([1, 2, 4, 8]), []), (8, ["-targetchecks", "1"])]
        for n, (th, args) in enumerate(plans):
            tr = os.path.join(d, "t%d" % n)
            env = {"ERICWTOOLS_VERIF_TRACE": tr, "VSHIM_DELAY": str(r.randrange(1, 10**6)), "VSHIM_STEP": "400"}
            snap = c.dir("%d/snap%d" % (i, n))
            if n == 0:
                env["VSHIM_SNAP"] = snap
            resumed = False
            if n == 2:
                # resume from a state in the middle of the first run
                snaps = sorted(os.listdir(c.dir("%d/snap0" % i)), key=lambda s: int(s.split(".")[0]))
                if snaps:
                    shutil.copy(os.path.join(d, "snap0", snaps[r.randrange(len(snaps))]), os.path.join(d, "w.vis"))
                    resumed = True
            what = "vis %s -threads %d%s on world %d (%s)" % (" ".join(args), th, " resumed" if resumed else "", i, fmt)
            rc, log = visrun.run(exe, path, args + ([] if resumed else ["-nostate"]), th, env)
            if rc != 0:
                return j, None, "%s ended with %s\n%s" % (what, rc, log[-1500:])
            try:
                case["traces"].append(parse(tr))
            except OSError:
                return j, None, "%s left no trace" % what
            case["what"].append(what)
        return j, case, None
    cases, meta = [], []
    for j, case, err in vlib.pmap(go, jobs):
        d = os.path.join(c.scratch, str(j[0]))
        fs = [os.path.join(d, f) for f in ("w.bsp", "w.prt", "t0", "t1", "t2")]
        if err:
            if "left no trace" in err:
                raise vlib.CheckError(err)
            c.violation("C09 " + err, fs)
            continue
        cases.append(case)
        meta.append(fs)
        c.count("events", sum(len(t) for t in case["traces"]))
        c.count("clears", sum(1 for t in case["traces"] for e in t if e["t"] == "clear"))
    for k in (0, 1):
        c.sample({"clusters": cases[k]["nc"], "portals": len(cases[k]["ports"]), "runs": cases[k]["what"], "first events": cases[k]["traces"][0][2 * len(cases[k]["ports"]):][:6]})
    for k, inv, trace in vlib.tlc_cases(c, "VisTrace", ["RaysAreOpen", "Conforms", "TNeverLost", "TExact"], cases, spec="TSpec", weight=lambda x: sum(len(t) for t in x["traces"]) * len(x["ports"])):
        if inv == "RaysAreOpen":
            raise vlib.CheckError("the search delivered a sight line that is not open\n" + trace[-1500:])
        kk = int(vlib.tlc_values(trace, "k")[-1])
        ee = vlib.tlc_values(trace, "e")
        run = cases[k]["what"][kk - 1] if 0 < kk <= len(cases[k]["what"]) else ""
        ev = ""
        if len(ee) > 1 and 0 < int(ee[-2]) <= len(cases[k]["traces"][kk - 1]):
            ev = str(cases[k]["traces"][kk - 1][int(ee[-2]) - 1])[:300]
        c.violation("C09 %s: %s: the run is not a behaviour of VisSched at event %s\n%s" % (inv, run, ev, trace[-3000:]), meta[k])
    c.assumptions += ["the events come from hooks compiled in with ERICWTOOLS_VERIF_TRACE", "delays around the locks vary the interleavings; not every one is forced"]

if __name__ == "__main__":
    vlib.main(check, "C09")
