"""C01 drawing hull contents, C02 collision hulls: random box worlds through the real qbsp, every cell of the
arrangement compared with VoxelWorld.tla"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread

def check(c, prop, inv, total):
    exe = c.build("qbsp")["qbsp"]
    rng = c.rng
    jobs = []
    for i in range(total):
        m = mapgen.gen(rng, compiler.ALLKINDS, leak=0.1)
        if rng.random() < 0.3:
            compiler.add_bmodels(rng, m, rng.randrange(1, 3))
        game = rng.choice(["q1", "q1", "q1", "h2", "hl"] if prop == "C02" else ["q1", "q1", "q1", "q1", "h2", "hl"])
        args = list(compiler.GAMES[game][0])
        if game == "q1" or game == "h2":
            args += rng.choice([[], [], ["-bsp2"], ["-2psb"]])
        if rng.random() < 0.4:
            args += rng.choice(compiler.NEUTRAL)
        if rng.random() < 0.25:
            args += rng.choice(compiler.SEMANTIC)
        jobs.append((i, m, game, args))
    def go(j):
        i, m, game, args = j
        d = c.dir("%d" % i)
        try:
            return j, compiler.compile_map(exe, m, d, args=args, threads=1 + i % 3), None
        except bspread.BadBSP as e:
            return j, None, str(e)
    cases, meta = [], []
    for (i, m, game, args), r, err in vlib.pmap(go, jobs):
        mp = os.path.join(c.scratch, str(i), "m.map")
        what = "%s qbsp %s on map %d (%s)" % (prop, " ".join(args), i, game)
        if err or r.bsp is None:
            c.violation("%s: no readable BSP: %s" % (what, err or (r.rc, r.log[-1500:])), [mp])
            continue
        nh = compiler.GAMES[game][1]
        hulls = prop == "C02"
        try:
            cs = [compiler.box_case(m, r, game, nh, hulls)]
            for k, (cls, bs, _) in enumerate(m.bmodels):
                cs.append(compiler.model_case(m, r, game, nh, k + 1, bs, hulls))
        except (bspread.BadBSP, IndexError, KeyError) as e:
            c.violation("%s: malformed tree: %r" % (what, e), [mp])
            continue
        for k, x in enumerate(cs):
            if len(c.cov["samples"]) < 2:
                c.sample({"args": args, "brushes": len(x["brushes"]), "ents": x["ents"], "leaked": x["leaked"], "nodes": len(x["tree"]["nodes"])})
            cases.append(x)
            meta.append((what + (" brush model %d" % k if k else ""), mp))
        c.count("maps")
        c.count("leaking_maps", int(r.leaked))
    bad = vlib.tlc_cases(c, "VoxelWorld", [inv], cases, consts="ALIAS Alias\nCONSTANT Skip0 = %s\n" % ("TRUE" if prop == "C02" else "FALSE"))
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-3000:]), [meta[k][1], meta[k][1][:-3] + "bsp"], data=cases[k])
    c.assumptions += ["worlds of axis-aligned boxes with integer coordinates (sloped worlds: see the lattice part)",
                      "python reader tools/bspread.py decodes the BSP file"]

if __name__ == "__main__":
    prop = sys.argv[1] if len(sys.argv) > 1 else "C01"
    if prop == "C01":
        vlib.main(lambda c: check(c, "C01", "ContentsRight", c.n(600, 6000)), "C01")
    else:
        vlib.main(lambda c: check(c, "C02", "HullRight", c.n(250, 2500)), "C02")
