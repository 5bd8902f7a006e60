"""C07: the same map and options give the same files, whatever the threads, schedule, place or leftovers; histories of real runs judged by Determ.tla"""
import sys, os, hashlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, vbuild, mapgen, compiler, lit, bspread

def digest(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return out

def lumps(path):
    b = bspread.read(path)
    return hashlib.sha256(repr((sorted(b.lumps.items()), sorted(b.bspx.items()))).encode()).hexdigest()[:16]

JUNK = ["other.bsp", "m.map.bak", "x.wad", "other.prt", "m2.lit", "notes.txt"]

def make(c, rng, i):
    game = rng.choice(list(lit.GAMES))
    q2 = game in ("q2", "qbism")
    kinds = ["solid", "solid", "water", "lava", "slime", "detail", "sky"] if q2 else compiler.ALLKINDS
    big = rng.random() < 0.3
    if big:
        m = mapgen.gen(rng, kinds, leak=0.1, cells=(7, 7, 5), nbrush=(10, 40), scale=(16, 64), style=rng.choice(["shell", "lattice", "tworooms", "soup"]), sides=not q2 and rng.random() < 0.5)
    else:
        m, _ = lit.gen(rng, kinds, game)
    if not m:
        return None
    if rng.random() < 0.5:
        compiler.add_bmodels(rng, m, rng.randrange(1, 4))
    for n in range(rng.randrange(0, 6 if big else 2)):
        lit.light(rng, m, [0, 0, 1, 2, 5])
    if rng.random() < 0.3:
        m.world.update(_sunlight="150", _sun_mangle="%d %d 0" % (rng.randrange(360), -rng.randrange(20, 90)), _sunlight2="60")
    if rng.random() < 0.2:
        m.world["_minlight"] = "20"
    # surfaces that shine, and smoothed ones
    if q2:
        for b in m.brushes:
            if b.kind == "solid" and rng.random() < 0.15:
                b.attrs = "0 1 %d" % rng.choice([100, 300, 1000])
    elif rng.random() < 0.4:
        p = lit.place(rng, m)
        if p:
            m.ents.append(("light", p, {"light": str(rng.choice([50, 200])), "_surface": rng.choice(sorted(mapgen.texnames(m))), "_color": "255 %d 90" % rng.randrange(256),
                                        **({"delay": "2"} if rng.random() < 0.5 else {}), **({"_surface_radiosity": "1"} if rng.random() < 0.4 else {})}))
    if rng.random() < 0.3:
        m.world["_phong"] = "1"
        for _, _, keys in m.bmodels:
            keys["_phong"] = "1"
            keys["_phong_angle"] = "100"
    qargs = lit.GAMES[game] + rng.choice(compiler.NEUTRAL) + rng.choice(compiler.NEUTRAL + [[]] * 10) + rng.choice(compiler.SEMANTIC + [[]] * 10)
    largs = []
    for o, p in ((["-bounce", "1"], .4), (["-extra4"], .3), (["-soft"], .15), (["-dirt"], .25), (["-lit"], .5), (["-lux"], .3), (["-bspxlit"], .2), (["-lightgrid"], .4),
                 (["-world_units_per_luxel", "8"], .2), (["-lmshift", "3"], .15), (["-phongallow", "1"], .2), (["-sunsamples", "20"], .1), (["-surflight_subdivide", "64"], .2)):
        if rng.random() < p:
            largs += o
    wad = mapgen.wad2(mapgen.texnames(m), palette=game == "hl")
    m.world["wad"] = "t.wad"
    # the later runs differ from the first in everything that must not matter
    runs = []
    for k in range(3):
        runs.append(dict(threads=1 if k == 0 else rng.choice([2, 3, 8, 8]), delay=rng.randrange(1, 10**6) if k and rng.random() < 0.5 else None,
                         perturb=rng.randrange(1, 256) if k else None, junk=rng.sample(JUNK, rng.randrange(0, 4)) if k else [], absolute=rng.random() < 0.5,
                         dir="d0" if k == 2 and rng.random() < 0.5 else "d%d" % k if rng.random() < 0.7 else "deep/er/place%d" % k))
    runs[0]["dir"] = "d0"
    return dict(i=i, m=m, game=game, qargs=qargs, largs=largs, wad=wad, runs=runs, vargs=rng.choice([[], [], ["-fast"], ["-level", "2"]]), again=rng.random() < 0.4,
                dec=rng.choice([None, None, "--decompile", "--decompile-geomonly", "--decompile-ignore-brushes"]))

def check(c):
    exe = c.build("qbsp", "vis", "light", "bsputil")
    so = vbuild.shim()
    rng = c.rng
    jobs = [j for j in (make(c, rng, i) for i in range(c.n(170, 3000))) if j]
    def go(j):
        top = c.dir("%d" % j["i"])
        ev, what = [], []
        for r in j["runs"]:
            d = os.path.join(top, r["dir"])
            old = os.path.exists(d)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "t.wad"), "wb") as f:
                f.write(j["wad"])
            j["m"].write(os.path.join(d, "m.map"))
            for f in r["junk"]:
                with open(os.path.join(d, f), "wb") as h:
                    h.write(hashlib.sha256(("%s%d" % (f, j["i"])).encode()).digest() * 40)
            ev.append(dict(tool="put", dir=r["dir"], after=digest(d)))
            what.append("layout")
            env = {}
            if r["delay"]:
                env.update(LD_PRELOAD=so, VSHIM_DELAY=str(r["delay"]))
            if r["perturb"]:
                env["MALLOC_PERTURB_"] = str(r["perturb"])
            def tool(name, args, fast=False):
                before = digest(d)
                th = 1 if name == "vis" and not fast and r["threads"] < 8 else r["threads"]
                target = {"qbsp": "m.map", "vis": "m.bsp", "light": "m.bsp", "bsputil": "m.bsp"}[name]
                if name == "light" and r["delay"]:
                    e = {k: v for k, v in env.items() if k == "MALLOC_PERTURB_"}
                else:
                    e = env
                cmd = [exe[name]] + (["-threads", str(th)] if name != "bsputil" else []) + args + [os.path.join(d, target) if r["absolute"] else target]
                rc, log = vlib.run(cmd, cwd=d, timeout=200, env=e)
                ev.append(dict(tool=name, opts=" ".join(args), dir=r["dir"], threads=th, fast=fast, before=before, after=digest(d), exit=str(rc), lumps=lumps(os.path.join(d, "m.bsp")) if name == "light" and rc == 0 else ""))
                what.append("%s (%s) -> %s" % (" ".join(os.path.basename(x) for x in cmd), r["dir"], rc))
                return rc, log
            rc, log = tool("qbsp", j["qargs"])
            if rc != 0:
                continue
            if os.path.exists(os.path.join(d, "m.prt")):
                tool("vis", ["-nostate"] + j["vargs"], fast="-fast" in j["vargs"])
                if th_free(ev[-1]):
                    # go on from a result that does not depend on the schedule
                    tool("vis", ["-nostate", "-fast"], fast=True)
            if j["dec"]:
                tool("bsputil", [j["dec"]])
            rc, log = tool("light", j["largs"])
            if rc == 0 and j["again"]:
                tool("light", j["largs"])
        return j, ev, what
    cases, meta = [], []
    for j, ev, what in vlib.pmap(go, jobs):
        cases.append(dict(ev=ev))
        meta.append((j, what))
        c.count("maps")
        for e in ev:
            c.count("runs_" + e["tool"])
            if e["tool"] != "put" and e["exit"] != "0":
                c.count("runs_refused")
    for k in (0, 1):
        c.sample({"history": meta[k][1]})
    for k, inv, trace in vlib.tlc_cases(c, "Determ", ["Function", "Settles", "Frame"], cases, weight=lambda x: len(x["ev"])):
        j, what = meta[k]
        n = int(vlib.tlc_values(trace, "i")[-1]) - 2
        e = cases[k]["ev"][n]
        differ = ""
        if inv == "Function":
            first = next((x for x in range(n) if cases[k]["ev"][x]["tool"] == e["tool"]), n)
            differ = "differs from %s in %s" % (what[first], [f for f in sorted(set(e["after"]) | set(cases[k]["ev"][first]["after"])) if e["after"].get(f) != cases[k]["ev"][first]["after"].get(f)])
        else:
            differ = "changed %s" % [f for f in sorted(set(e["after"]) | set(e["before"])) if e["after"].get(f) != e["before"].get(f)]
        top = os.path.join(c.scratch, str(j["i"]))
        c.violation("C07 %s: map %d: %s %s" % (inv, j["i"], what[n], differ), [os.path.join(top, e["dir"], f) for f in ("m.map", "m.bsp", "t.wad")])
    if os.environ.get("DBG7"):
        for j, what in meta:
            if j["i"] == int(os.environ["DBG7"]):
                print("\n".join(what), j["runs"]); shutil.copytree(os.path.join(c.scratch, str(j["i"])), "/tmp/dbg7", dirs_exist_ok=True)
    c.assumptions += ["schedules vary with the number of threads, injected delays and the machine's load; not every one is forced",
                      "vis with several threads and without -fast is judged by C08 and C09, not here"]

def th_free(e):
    return e["tool"] == "vis" and e["threads"] > 1 and not e["fast"]

if __name__ == "__main__":
    vlib.main(check, "C07")
