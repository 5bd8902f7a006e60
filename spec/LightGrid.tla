------------------------------- MODULE LightGrid -------------------------------
(***************************************************************************)
(* The light grid: a lattice of points over the world, each either marked  *)
(* as lying in solid or holding the light that arrives there, by style.    *)
(* The lump stores it as a tree of eight-way nodes over chunks.  One step  *)
(* of the specification looks up one layer of the lattice; every point of  *)
(* it must be found in exactly one chunk or marked, and hold what Light    *)
(* computes.                                                               *)
(*   C.grid = [dist, size, mins, nst, root, nodes, leafs]  the lump        *)
(*   C.tree = [nodes, head, solid]    the world's tree, solid by leaf      *)
(*   C.faces, C.lights                see Light                            *)
(*   C.points  corners of the region the grid must span                    *)
(*   C.range10, C.s10                 output scale * 10, distance scale    *)
(***************************************************************************)
EXTENDS Light, Json, IOUtils, TLC

Cases == TLCEval(ndJsonDeserialize(IOEnv.VERIF_CASES))
VARIABLES ci, z    \* case, layer being looked up
vars == <<ci, z>>
C == Cases[ci]
G == C.grid

---------------------------------------------------------------------------
\* the lattice
Lo(a) == CHOOSE x \in {C.points[i][a] : i \in DOMAIN C.points} : \A i \in DOMAIN C.points : x <= C.points[i][a]
Hi(a) == CHOOSE x \in {C.points[i][a] : i \in DOMAIN C.points} : \A i \in DOMAIN C.points : x >= C.points[i][a]
SizeOf(a) == (Hi(a) - Lo(a) + C.dist[a] - 1) \div C.dist[a]
Place(p) == [a \in 1..3 |-> Lo(a) + p[a] * C.dist[a]]

\* a point is in solid if anything within a tenth of a unit of it is (so, for whole coordinates, if a solid leaf touches it)
RECURSIVE InSolid(_, _)
InSolid(n, p) ==
  IF n < 0 THEN C.tree.solid[-n]
  ELSE LET nd == C.tree.nodes[n + 1]
           x == p[nd.a + 1] - nd.d
       IN  CASE x > 0 -> InSolid(nd.c[1], p)
             [] x < 0 -> InSolid(nd.c[2], p)
             [] OTHER -> InSolid(nd.c[1], p) \/ InSolid(nd.c[2], p)
Solid(p) == InSolid(C.tree.head, p)
\* where the light of a lattice point may be taken: there, or two units to a side when that is in solid
Near(p) == {[p EXCEPT ![a] = p[a] + s] : a \in 1..3, s \in {-2, 2}}
Spots(p) == IF ~Solid(p) THEN {p} ELSE {q \in Near(p) : ~Solid(q)}

---------------------------------------------------------------------------
\* the tree of the lump: every way down to a node or chunk must agree on the box it stands for
Oct(nd, p) == 1 + (IF p[1] >= nd.m[1] THEN 4 ELSE 0) + (IF p[2] >= nd.m[2] THEN 2 ELSE 0) + (IF p[3] >= nd.m[3] THEN 1 ELSE 0)
RefOk(r) == CASE r.k = "node" -> r.n < Len(G.nodes) [] r.k = "leaf" -> r.n < Len(G.leafs) [] OTHER -> TRUE
Refs == {r \in {G.root} \cup UNION {{G.nodes[i].c[k] : k \in 1..8} : i \in DOMAIN G.nodes} : r.k # "occ"}
RefCount == Cardinality({k \in {<<0, 1>>} : G.root.k # "occ"}) + Cardinality({<<i, k>> \in (DOMAIN G.nodes) \X (1..8) : G.nodes[i].c[k].k # "occ"})
\* no node refers to itself or a later one (so the tree is finite), everything is referred to once
TreeOk ==
  /\ \A r \in Refs : RefOk(r)
  /\ \A i \in DOMAIN G.nodes : \A k \in 1..8 : G.nodes[i].c[k].k = "node" => G.nodes[i].c[k].n # i - 1
  /\ Cardinality(Refs) = RefCount
  /\ RefCount = Len(G.nodes) + Len(G.leafs)
  /\ Refs = {[k |-> "node", n |-> i - 1] : i \in DOMAIN G.nodes} \cup {[k |-> "leaf", n |-> i - 1] : i \in DOMAIN G.leafs}

RECURSIVE Descend(_, _, _)
Descend(r, p, depth) ==
  IF depth > 64 THEN [k |-> "lost", n |-> 0]
  ELSE IF r.k = "node" THEN Descend(G.nodes[r.n + 1].c[Oct(G.nodes[r.n + 1], p)], p, depth + 1) ELSE r
Holds(lf, p) == \A a \in 1..3 : p[a] >= lf.m[a] /\ p[a] < lf.m[a] + lf.s[a]
Index(lf, p) == 1 + (p[1] - lf.m[1]) + lf.s[1] * ((p[2] - lf.m[2]) + lf.s[2] * (p[3] - lf.m[3]))
\* what the lump says about a lattice point: <<"occ">>, <<"bad">> or <<"lit", samples>>
Lookup(p) ==
  LET r == Descend(G.root, p, 0)
  IN  CASE r.k = "occ" -> <<"occ">>
        [] r.k = "leaf" -> LET lf == G.leafs[r.n + 1]
                           IN  IF ~Holds(lf, p) \/ Cardinality({l \in DOMAIN G.leafs : Holds(G.leafs[l], p)}) # 1 THEN <<"bad">>
                               ELSE LET s == lf.p[Index(lf, p)] IN IF s = <<-1>> THEN <<"occ">> ELSE <<"lit", s>>
        [] OTHER -> <<"bad">>

---------------------------------------------------------------------------
\* the light that must arrive at spot p: per light, the least and greatest brightness in sixteenths (of white)
Cos(L, p) == LET d16 == Dist16(p, L.o)
                 m == LMax(LMax(LAbs(p[1] - L.o[1]), LAbs(p[2] - L.o[2])), LAbs(p[3] - L.o[3]))
             IN  LMin(1024, (16384 * m) \div d16)
Contribution(L, p) ==
  IF L.off THEN <<0, 0>>
  ELSE LET d16 == Dist16(p, L.o)
           v0 == Value16(L, d16, C.s10)
           v == (v0 * Angle(L, Cos(L, p))) \div 1024
       IN  IF v = 0 THEN <<0, 0>>
           ELSE LET s == Sight(p, L.o, C.faces)
                    e == 3 + v \div 50
                    top == IF v0 = Huge THEN Huge ELSE v + e
                    x == CASE s = "shut" -> <<0, 0>> [] s = "open" -> <<LMax(0, v - e), top>> [] OTHER -> <<0, top>>
                IN  IF L.v > 0 THEN x ELSE <<-x[2], -x[1]>>
Styles == {C.lights[i].st : i \in DOMAIN C.lights}
RECURSIVE Total(_, _, _, _, _)
\* sum over the lights of style st of the k-th component in 1/4080ths (sixteenth * colour / 255)
Total(all, st, c, side, i) ==
  IF i > Len(C.lights) THEN 0
  ELSE Total(all, st, c, side, i + 1) +
       (IF C.lights[i].st # st THEN 0 ELSE all[i][side] * (IF LAbs(all[i][side]) = Huge THEN LMax(20, C.lights[i].c[c]) ELSE C.lights[i].c[c]))
\* a style certainly / possibly arrives
Arrives(all, st) == \E i \in DOMAIN C.lights : C.lights[i].st = st /\ C.lights[i].c # <<0, 0, 0>> /\ (all[i][1] > 8 \/ all[i][2] < -8)
May(all, st) == \E i \in DOMAIN C.lights : C.lights[i].st = st /\ (all[i][1] # 0 \/ all[i][2] # 0)
\* stored component (0..255) of a sum in 1/4080ths: scaled by the range, negative light cut off
Out(x) == ((LMax(0, x) \div 4080) * C.range10) \div 10
SampleOk(s, p) ==
  LET all == TLCEval([i \in DOMAIN C.lights |-> Contribution(C.lights[i], p)])
      n == Len(s) \div 4
      st(k) == s[4 * k - 3]
      got == {st(k) : k \in 1..n}
      hi(k, c) == Out(Total(all, st(k), c, 2, 1)) + 2
      lo(k, c) == Out(Total(all, st(k), c, 1, 1)) - 2
      bright(k) == \E c \in 1..3 : hi(k, c) > 252      \* scaled down as a whole: only bounded above
  IN  /\ Len(s) = 4 * n
      /\ Cardinality(got) = n
      /\ \A x \in got : x \in Styles /\ May(all, x)
      /\ LET must == {x \in Styles : Arrives(all, x)}
             may == {x \in Styles : May(all, x)}
         IN  IF Cardinality(may) <= 4 THEN must \subseteq got ELSE Cardinality(must) > 4 => n = 4
      /\ \A k \in 1..n : \A c \in 1..3 :
           LET v == s[4 * k - 3 + c]
           IN  /\ v <= hi(k, c)
               /\ (bright(k) \/ Cardinality({x \in Styles : May(all, x)}) > 4) \/ v >= lo(k, c)
      /\ \A k \in 1..n : (\E c \in 1..3 : lo(k, c) > 258 /\ Cardinality({x \in Styles : May(all, x)}) <= 4)
           => \E c \in 1..3 : s[4 * k - 3 + c] = 255

PointOk(p, f) ==
  LET w == Place(p)
      S == Spots(w)
  IN  CASE f[1] = "bad" -> FALSE
        [] f[1] = "occ" -> S = {}
        [] OTHER -> \E q \in S : SampleOk(f[2], q)

---------------------------------------------------------------------------
Used == UNION {{Len(G.leafs[l].p[i]) \div 4 : i \in DOMAIN G.leafs[l].p} : l \in DOMAIN G.leafs}

Init == ci = 1 /\ z = 0
Next == \/ z < C.size3 - 1 /\ z' = z + 1 /\ ci' = ci
        \/ z = C.size3 - 1 /\ ci < Len(Cases) /\ ci' = ci + 1 /\ z' = 0
Spec == Init /\ [][Next]_vars

Header == /\ G.dist = C.dist
          /\ \A a \in 1..3 : G.mins[a] = Lo(a) /\ G.size[a] = SizeOf(a)
          /\ G.size[3] = C.size3
          \* the greatest number of styles at any point
          /\ \A n \in Used : n <= G.nst
          /\ G.nst \in Used \cup {0}
Structure == z = 0 => /\ TreeOk
                      /\ \A l \in DOMAIN G.leafs : \A a \in 1..3 : G.leafs[l].m[a] >= 0 /\ G.leafs[l].m[a] + G.leafs[l].s[a] <= G.size[a]
Layer(k) == [q \in {<<x, y>> : x \in 0..(G.size[1] - 1), y \in 0..(G.size[2] - 1)} |-> Lookup(<<q[1], q[2], k>>)]
Points == LET now == TLCEval(Layer(z)) IN \A q \in DOMAIN now : PointOk(<<q[1], q[2], z>>, now[q])
=============================================================================
