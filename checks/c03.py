"""C03 leaks: real qbsp runs on random worlds judged by Leak.tla"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, mapgen, compiler, bspread

def check(c):
    exe = c.build("qbsp")["qbsp"]
    rng = c.rng
    jobs = []
    for i in range(c.n(900, 9000)):
        kinds = rng.choice([compiler.ALLKINDS, ["solid", "detail", "wall", "fence", "illus"], ["solid", "sky", "water", "detail", "clip"]])
        m = mapgen.gen(rng, kinds, leak=rng.choice([0.1, 0.2, 0.3]), nents=(1, 3), noent=0.03)
        if rng.random() < 0.15:
            compiler.add_bmodels(rng, m, 1)
        args = []
        if rng.random() < 0.35:
            args += rng.choice(compiler.SEMANTIC)
        if rng.random() < 0.2:
            args += rng.choice(compiler.NEUTRAL)
        game = rng.choice(["q1", "q1", "q1", "h2", "hl", "q2"])
        args += {"q1": [], "h2": ["-hexen2"], "hl": ["-hlbsp"], "q2": ["-q2bsp"]}[game]
        if rng.random() < 0.15:
            args += ["-keepprt"]
        elif rng.random() < 0.15:
            args += ["-leaktest"]
        if game == "q2":
            # the kinds below have Quake II texture-independent equivalents only for plain solids
            m.brushes = [b for b in m.brushes if b.kind in ("solid", "detail")] or [mapgen.Brush((0, 0, 0), (64, 64, 64))]
            m.bmodels = []
        jobs.append((i, m, game, args))
    def go(j):
        i, m, game, args = j
        d = c.dir("%d" % i)
        for ext in ("pts", "prt"):  # left over from an earlier compile
            with open(os.path.join(d, "m." + ext), "w") as f:
                f.write("stale\n")
        try:
            return j, compiler.compile_map(exe, m, d, args=args, threads=1 + i % 3), None
        except bspread.BadBSP as e:
            return j, None, str(e)
    cases, meta = [], []
    for (i, m, game, args), r, err in vlib.pmap(go, jobs):
        mp = os.path.join(c.scratch, str(i), "m.map")
        what = "C03 qbsp %s on map %d (%s)" % (" ".join(args), i, game)
        if err or not isinstance(r.rc, int) or r.rc < 0:
            c.violation("%s: qbsp did not finish: %s" % (what, err or (r.rc, r.log[-1000:])), [mp])
            continue
        d = mapgen.describe(m)
        o = compiler.opts_of(args)
        for k in ("-keepprt", "-leaktest"):
            if k in args:
                o[k[1:]] = True
        trail = []
        if r.pts:
            with open(r.pts_path) as f:
                try:
                    pts = [[int(round(float(v) * 16)) for v in l.split()] for l in f if l.strip()]
                    trail = [[pts[k], pts[k + 1]] for k in range(0, len(pts) - 1, 2)]
                    if len(pts) % 2 or any(len(p) != 3 for p in pts):
                        raise ValueError("odd")
                except ValueError:
                    if "Reached occupant" in r.log:
                        c.violation("%s: unreadable trail" % what, [mp, r.pts_path])
                        continue
        d.update(game=game, opts=o, tree={"nodes": [], "head": -1, "leafs": ["EMPTY"]}, hulls=[], leaked=r.leaked,
                 pts=r.pts, prt=r.prt, failed=r.rc != 0, trail=trail)
        c.count("maps")
        c.count("leaks", int(r.leaked))
        c.count("trail_segments", len(trail))
        if r.leaked and trail:
            c.sample({"args": args, "ents": d["ents"], "trail": trail[:3]})
        cases.append(d)
        meta.append((what, mp, r.pts_path))
    bad = vlib.tlc_cases(c, "Leak", ["Report", "Files", "TrailOpen", "TrailJoined", "TrailEnds"], cases, spec="LeakSpec",
                         consts="ALIAS LAlias\nCONSTANT Skip0 = FALSE\n")
    for k, v, trace in bad:
        c.violation("%s: %s\n%s" % (meta[k][0], v, trace[-3000:]), meta[k][1:], data=cases[k])
    c.assumptions += ["worlds of axis-aligned boxes with integer coordinates"]

if __name__ == "__main__":
    vlib.main(check, "C03")
