------------------------------- MODULE Portals -------------------------------
(***************************************************************************)
(* The portal file.  After the fills of VoxelWorld, space is cut by the    *)
(* structural surfaces into clusters; the file must list, for every two    *)
(* clusters, windings covering exactly the surface through which one sees  *)
(* from one into the other.  The grid contains the corners of all windings,*)
(* so "covered" is decided for every point of every wall of the            *)
(* arrangement by looking at every pair of neighbouring cells.             *)
(*                                                                         *)
(* C.portals  = sequence of [a, b, pts] (clusters from 0)                  *)
(* C.clusterof = cluster of each BSP leaf (-1: none)                       *)
(***************************************************************************)
EXTENDS VoxelWorld

Liquids == {"water", "slime", "lava", "glass"}
Liq == Liquids \cup {"twater"}
Opaque(k) == k \in Liquids /\ ~(C.game # "q2" /\ ~Opt("notranswater"))
\* structural: what separates clusters (besides solid); liquids one can look through are detail
VisK(K) == IF "sky" \in K THEN {"sky"} ELSE {k \in K : Opaque(k)}
\* contents that make a cell detail
DetK(K) == "sky" \notin K /\ \E k \in K : k \in Detail \cup Liq /\ ~Opaque(k)
\* solid, though it may belong to a cluster (detail walls become solid when the tree is pruned)
Massive(K) == "sky" \notin K /\ ("detail" \in K \/ (C.game # "q2" /\ "wall" \in K))
NoView(c) == c \in sealed \/ c \in dsealed \/ Structural(kinds[c]) \/ Massive(kinds[c])

Cl(c) == C.clusterof[-leaf[c]]

---------------------------------------------------------------------------
(* windings *)
Axes == <<<<2, 3>>, <<1, 3>>, <<1, 2>>>>
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
Flat(p) == {a \in 1 .. 3 : \A i \in DOMAIN p.pts : p.pts[i][a] = p.pts[1][a]}
\* a rectangle: all corners on its boundary box, area of the polygon = area of the box
Twice(p, u, v) ==
  LET n == Len(p.pts)
      RECURSIVE S(_)
      S(i) == IF i > n THEN 0
              ELSE LET q == p.pts[i]  r == p.pts[(i % n) + 1] IN (q[u] * r[v] - r[u] * q[v]) + S(i + 1)
  IN  S(1)
Rect(p) ==
  LET a == CHOOSE x \in Flat(p) : TRUE
      u == Axes[a][1]  v == Axes[a][2]
      U == {p.pts[i][u] : i \in DOMAIN p.pts}
      V == {p.pts[i][v] : i \in DOMAIN p.pts}
      g == <<grid.x, grid.y, grid.z>>
      tw == Twice(p, u, v)
  IN  [a |-> a, k |-> Idx(g[a], p.pts[1][a]),
       u0 |-> Idx(g[u], MinOf(U)), u1 |-> Idx(g[u], MaxOf(U)), v0 |-> Idx(g[v], MinOf(V)), v1 |-> Idx(g[v], MaxOf(V)),
       tw |-> tw, box |-> 2 * (MaxOf(U) - MinOf(U)) * (MaxOf(V) - MinOf(V)),
       \* the documented normal (p0 - p1) x (p2 - p1) has the opposite sense of the polygon's own area vector
       up |-> (IF a = 2 THEN tw > 0 ELSE tw < 0),
       lo |-> p.a, hi |-> p.b]
Rects == [i \in DOMAIN C.portals |-> Rect(C.portals[i])]

WellFormed ==
  phase = "check" =>
    \A i \in DOMAIN C.portals :
      LET p == C.portals[i] IN
      /\ Len(p.pts) >= 3
      /\ Cardinality(Flat(p)) = 1
      /\ p.a # p.b /\ p.a \in 0 .. C.clusters - 1 /\ p.b \in 0 .. C.clusters - 1
      /\ LET r == Rect(p) IN r.tw \in {r.box, -r.box} /\ r.box > 0

---------------------------------------------------------------------------
(* cells and clusters *)
Numbered == phase = "check" =>
  /\ \A c \in CellsOf : (Cl(c) >= 0) <=> ~NoView(c)
  /\ \A c \in CellsOf : Cl(c) < C.clusters
  /\ LET used == {C.clusterof[i] : i \in DOMAIN C.clusterof} \ {-1} IN used = 0 .. C.clusters - 1

\* no structural surface separates two points of one cluster
OneKind == phase = "check" =>
  LET rep == TLCEval([k \in 0 .. C.clusters - 1 |-> {VisK(kinds[c]) : c \in {x \in CellsOf : Cl(x) = k}}])
  IN  \A k \in DOMAIN rep : Cardinality(rep[k]) <= 1

---------------------------------------------------------------------------
(* openings *)
\* "no": certainly a cluster without detail; "maybe": a solid piece of detail may belong to it
MaybeDet == TLCEval(LET near == {c \in CellsOf : c \in dsealed \/ c \in sealed \/ Massive(kinds[c]) \/ DetK(kinds[c])}
                    IN  {k \in 0 .. C.clusters - 1 : \E c \in CellsOf : Cl(c) = k /\ (c \in near \/ \E n \in Nbrs(grid, c) : n \in near)})
\* clusters with a detail liquid or window: the compiler may take it for what is on the other side, and see more than it has to
Tinted == TLCEval({Cl(c) : c \in {x \in CellsOf : Cl(x) >= 0 /\ C.game = "q2" /\ kinds[x] \cap {"twater", "fence"} # {}}})
SureDet == TLCEval({Cl(c) : c \in {x \in CellsOf : Cl(x) >= 0 /\ DetK(kinds[x])}})
Z(K, det) == IF det THEN {} ELSE VisK(K)
SeeWith(K0, K1, d0, d1) == VisK(K0) = VisK(K1) \/ Z(K0, d0) = Z(K1, d1)
Ambiguous(K) == Cardinality(K \cap (Liq \cup {"sky"})) >= 2

\* the wall between cell c and the next cell along axis a
Upper(c, a) == c + (CASE a = 1 -> 1 [] a = 2 -> grid.nx [] a = 3 -> grid.nx * grid.ny)
Walls(a) == {c \in CellsOf : CASE a = 1 -> IX(grid, c) < grid.nx [] a = 2 -> IY(grid, c) < grid.ny [] a = 3 -> IZ(grid, c) < grid.nz}

Wrong ==
  LET R == TLCEval(Rects)
      may == MaybeDet
      sure == SureDet
      tinted == Tinted
      By == TLCEval([a \in 1 .. 3 |-> [k \in 1 .. Len(<<grid.x, grid.y, grid.z>>[a]) |-> {i \in DOMAIN R : R[i].a = a /\ R[i].k = k}]])
      Cov(c, a) ==
        LET ix == <<IX(grid, c), IY(grid, c), IZ(grid, c)>>
            u == ix[Axes[a][1]]  v == ix[Axes[a][2]]
        IN  {i \in By[a][ix[a] + 1] : R[i].u0 <= u /\ u < R[i].u1 /\ R[i].v0 <= v /\ v < R[i].v1}
      Judge(c, a) ==
        LET d == Upper(c, a)
            cov == Cov(c, a)
            x == Cl(c)  y == Cl(d)
            K0 == kinds[c]  K1 == kinds[d]
            pair == \A i \in cov : LET first == IF R[i].up THEN y ELSE x  second == IF R[i].up THEN x ELSE y
                                   IN R[i].lo = first /\ R[i].hi = second
            answers == {SeeWith(K0, K1, d0, d1) : d0 \in (IF x \in sure THEN {TRUE} ELSE IF x \in may THEN {TRUE, FALSE} ELSE {FALSE}),
                                                 d1 \in (IF y \in sure THEN {TRUE} ELSE IF y \in may THEN {TRUE, FALSE} ELSE {FALSE})} \cup (IF x \in tinted \/ y \in tinted THEN {TRUE} ELSE {})
        IN  IF Cardinality(cov) > 1 THEN "twice"
            ELSE IF Structural(K0) \/ Structural(K1) THEN (IF cov = {} THEN "ok" ELSE "through solid")
            ELSE IF x = -1 \/ y = -1 THEN "ok"
            ELSE IF x = y THEN (IF cov = {} THEN "ok" ELSE "inside a cluster")
            ELSE IF cov # {} /\ ~pair THEN "pair"
            ELSE IF IsMargin(grid, c) \/ IsMargin(grid, d) \/ Ambiguous(K0) \/ Ambiguous(K1) THEN "ok"
            ELSE IF (cov # {}) \in answers THEN "ok"
            ELSE IF cov = {} THEN "missing" ELSE "opaque"
  IN  {j \in UNION {{[cell |-> c, a |-> a, why |-> Judge(c, a)] : c \in Walls(a)} : a \in 1 .. 3} : j.why # "ok"}

Openings == phase = "check" => Wrong = {}

---------------------------------------------------------------------------
(* the numbers in the header and the lists behind the portals *)
Header == phase = "check" =>
  /\ C.nportals = Len(C.portals)
  /\ C.leafs = C.visleafs \/ (C.leafs = 0 /\ \A c \in CellsOf : NoView(c))   \* (a world of nothing but solid has no openings)
  /\ \/ C.kind = "PRT1" /\ C.leafs = C.clusters
     \/ C.kind = "PRT1" /\ C.game = "q2"
     \/ C.kind = "PRT2" /\ Len(C.lists) = C.clusters
  /\ C.kind = "PRT2" =>
       /\ \A k \in DOMAIN C.lists : Len(C.lists[k]) > 0
       /\ \A k \in DOMAIN C.lists : \A i \in DOMAIN C.lists[k] : C.lists[k][i] \in 0 .. C.leafs - 1
       /\ \A v \in 0 .. C.leafs - 1 : Cardinality({k \in DOMAIN C.lists : \E i \in DOMAIN C.lists[k] : C.lists[k][i] = v}) = 1

PAlias == [ci |-> ci, phase |-> phase, wrong |-> IF phase # "check" THEN {} ELSE
             {[at |-> Mid2(grid, w.cell), a |-> w.a, why |-> w.why, k0 |-> kinds[w.cell], k1 |-> kinds[Upper(w.cell, w.a)],
               x |-> Cl(w.cell), y |-> Cl(Upper(w.cell, w.a))] : w \in Wrong},
           num |-> IF phase # "check" THEN {} ELSE {[at |-> Mid2(grid, c), k |-> kinds[c], cl |-> Cl(c), s |-> c \in sealed, d |-> c \in dsealed] : c \in {x \in CellsOf : (Cl(x) >= 0) = NoView(x)}}]
=============================================================================
