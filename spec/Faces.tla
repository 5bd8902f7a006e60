-------------------------------- MODULE Faces --------------------------------
(***************************************************************************)
(* The surfaces a compiled world must have.  The boundary between two      *)
(* adjacent cells shows, on one or both of its sides, the strongest kind   *)
(* of contents in which they differ; the recorded faces must cover exactly *)
(* those boundaries, once, facing the right way, in the texture of a brush *)
(* side that lies there, and be listed by the leaves they border.          *)
(*   C.faces[i] = [a, d, s, v, t, vec]   axis 0..2, coordinate, +1/-1 the  *)
(*     direction it faces, corners (the two other coordinates), texture    *)
(*   C.brushes[b].tex[1..6]   textures of -x +x -y +y -z +z sides          *)
(*   C.marks[leaf] = faces listed by that leaf (numbers into C.faces)      *)
(***************************************************************************)
EXTENDS VoxelWorld

VARIABLES byplane,  \* <<axis, interval boundary>> -> faces lying there
          covers    \* leaf -> faces that border it
fvars == <<byplane, covers>>

F == C.faces
Bits == <<"SOLID", "SKY", "DWALL", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST">>
BitOf(k) == CASE k \in {"solid", "detail"} -> 1 [] k = "sky" -> 2 [] k = "wall" -> 3 [] k = "fence" -> 4
              [] k = "lava" -> 6 [] k = "slime" -> 7 [] k = "water" -> 8 [] k = "illus" -> 9
\* the visible contents of a cell, as a set of bits
CellBits(c) ==
  IF c \in sealed \/ c \in dsealed THEN {1}
  ELSE LET K == kinds[c] IN IF "solid" \in K THEN {1} ELSE IF "sky" \in K THEN {2} ELSE {BitOf(k) : k \in K}
Solid(c) == 1 \in CellBits(c)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Liquid == {6, 7, 8}

\* What must be drawn between cells p (below) and q (above): the set of directions in which a face faces,
\* +1 (seen from q) or -1 (seen from p), and the strongest bit.
Change(p, q) == LET a == CellBits(p) b == CellBits(q) IN (a \ b) \cup (b \ a)
Both(p, q) == (CellBits(p) \cap {1, 2}) # {} /\ (CellBits(q) \cap {1, 2}) # {}
Draw(p, q) ==
  LET x == Change(p, q)
  IN  IF x = {} \/ Both(p, q) THEN {}
      ELSE LET m == Least(x)
               owner == IF m \in CellBits(q) THEN 1 ELSE -1   \* the side that has it
               out == -owner
               see(dir) == IF dir = 1 THEN ~Solid(q) ELSE ~Solid(p)
               mirror == m \in Liquid \/ (Opt("mirror") /\ m \in {3, 4, 9})
           IN  {dir \in {out} \cup (IF mirror THEN {owner} ELSE {}) : see(dir)}
\* nobody can stand inside a detail wall: what only such a place borders may be drawn or not
Blind(p, q, dir) == 3 \in CellBits(IF dir = 1 THEN q ELSE p)
Owner(p, q) == IF Least(Change(p, q)) \in CellBits(q) THEN 1 ELSE -1

---------------------------------------------------------------------------
\* plane geometry: the two other axes of axis a
Others(a) == IF a = 0 THEN <<1, 2>> ELSE IF a = 1 THEN <<0, 2>> ELSE <<0, 1>>
Line(a) == IF a = 0 THEN grid.x ELSE IF a = 1 THEN grid.y ELSE grid.z
Dim(a) == Len(Line(a)) - 1
\* cell with interval i on axis a, and j, k on the others
Cell3(a, i, j, k) == IF a = 0 THEN CellAt(grid, i, j, k) ELSE IF a = 1 THEN CellAt(grid, j, i, k) ELSE CellAt(grid, j, k, i)

Cross(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
Nxt(v, i) == IF i = Len(v) THEN 1 ELSE i + 1
\* twice the signed area
RECURSIVE Area2(_, _)
Area2(v, i) == IF i > Len(v) THEN 0 ELSE v[i][1] * v[Nxt(v, i)][2] - v[Nxt(v, i)][1] * v[i][2] + Area2(v, i + 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* point (scaled by 7) strictly inside / on the border of a convex polygon of orientation o
Sides(v, p, o) == {LET q == v[i] r == v[Nxt(v, i)]
                   IN  o * ((r[1] - q[1]) * (p[2] - 7 * q[2]) - (r[2] - q[2]) * (p[1] - 7 * q[1])) : i \in DOMAIN v}
Strict(v, p, o) == \A x \in Sides(v, p, o) : x > 0
Closed(v, p, o) == \A x \in Sides(v, p, o) : x >= 0

\* Quake polygons are clockwise when seen from the side they face
Orient(f) == (IF f.a = 1 THEN 1 ELSE -1) * f.s

\* a convex polygon and the rectangle [x0,x1] x [y0,y1] have interior points in common: no edge of either separates them
Overlap(v, x0, x1, y0, y1, o) ==
  /\ \E i \in DOMAIN v : v[i][1] > x0
  /\ \E i \in DOMAIN v : v[i][1] < x1
  /\ \E i \in DOMAIN v : v[i][2] > y0
  /\ \E i \in DOMAIN v : v[i][2] < y1
  /\ \A i \in DOMAIN v : \E p \in {<<x0, y0>>, <<x0, y1>>, <<x1, y0>>, <<x1, y1>>} :
       o * Cross(v[i], v[Nxt(v, i)], p) > 0 \/ v[i] = v[Nxt(v, i)]

Probes == {<<2, 3>>, <<5, 1>>, <<4, 6>>}
Probe(s, j, t, k, w) == <<7 * s[j] + w[1] * (s[j+1] - s[j]), 7 * t[k] + w[2] * (t[k+1] - t[k])>>

---------------------------------------------------------------------------
FInit == Init /\ byplane = <<>> /\ covers = <<>>

Sort ==
  /\ phase = "check" /\ h = 0
  /\ byplane' = [a \in 0..2 |-> [i \in DOMAIN Line(a) |-> {f \in DOMAIN F : F[f].a = a /\ F[f].d = Line(a)[i]}]]
  /\ phase' = "cover"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, leak, sealed, dreach, dsealed, leaf, covers>>

\* faces bordering each leaf on their front
FacesAt(a, i, j, k, s) ==
  LET o == Others(a)
  IN  {f \in byplane[a][i] : F[f].s = s /\ Overlap(F[f].v, Line(o[1])[j], Line(o[1])[j+1], Line(o[2])[k], Line(o[2])[k+1], Orient(F[f]))}
Cover ==
  /\ phase = "cover"
  /\ covers' = UNION {UNION {{<<leaf[Cell3(a, IF s = 1 THEN i ELSE i - 1, j, k)], f>> : f \in FacesAt(a, i, j, k, s)}
                  : i \in 2 .. Dim(a), j \in 1 .. Dim(Others(a)[1]), k \in 1 .. Dim(Others(a)[2]), s \in {-1, 1}} : a \in 0..2}
  /\ phase' = "faces"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, leak, sealed, dreach, dsealed, leaf, byplane>>

FNext == (Next /\ UNCHANGED fvars) \/ Sort \/ Cover
FSpec == FInit /\ [][FNext]_<<vars, fvars>>

Ready == phase = "faces"

\* every face is a proper convex polygon lying on a cut
Shapes ==
  Ready => \A f \in DOMAIN F :
    LET v == F[f].v
    IN  /\ Len(v) >= 3
        /\ F[f].s * Abs(F[f].s) # 0
        /\ Orient(F[f]) * Area2(v, 1) > 0
        /\ \A i \in DOMAIN v : Orient(F[f]) * Cross(v[i], v[Nxt(v, i)], v[Nxt(v, Nxt(v, i))]) >= 0
        /\ \E i \in DOMAIN Line(F[f].a) : Line(F[f].a)[i] = F[f].d

\* brush sides that may lend their texture: sides at that place, of brushes on the side that owns the change
Lenders(a, i, j, k, own, bit) ==
  LET o == Others(a)
      x == IF a = 0 THEN (IF own = 1 THEN i ELSE i - 1) ELSE j
      y == IF a = 1 THEN (IF own = 1 THEN i ELSE i - 1) ELSE IF a = 0 THEN j ELSE k
      z == IF a = 2 THEN (IF own = 1 THEN i ELSE i - 1) ELSE k
  IN  {b \in DOMAIN boxes : /\ BitOf(boxes[b].k) = bit
                            /\ InRange(boxes[b].r, x, y, z)
                            /\ boxes[b].r[2 * a + (IF own = 1 THEN 1 ELSE 2)] = i}
\* C.tex[b] belongs to the b-th box of hull 0
SideTex(b, a, own) == C.tex[b][2 * a + (IF own = 1 THEN 1 ELSE 2)]

RectRight(a, i, j, k) ==
  LET o == Others(a)
      p == Cell3(a, i - 1, j, k)
      q == Cell3(a, i, j, k)
      dirs == Draw(p, q)
      own == IF dirs = {} THEN 0 ELSE Owner(p, q)
      bit == IF dirs = {} THEN 0 ELSE Least(Change(p, q))
      lend == IF dirs = {} THEN {} ELSE {SideTex(b, a, own) : b \in Lenders(a, i, j, k, own, bit)}
      skip == {t \in lend : t.n = "skip"} # {}
  IN  \A s \in {-1, 1} : \A w \in Probes :
        LET pt == Probe(Line(o[1]), j, Line(o[2]), k, w)
            here == {f \in byplane[a][i] : F[f].s = s /\ Closed(F[f].v, pt, Orient(F[f]))}
            inside == {f \in here : Strict(F[f].v, pt, Orient(F[f]))}
        IN  IF s \in dirs
            THEN /\ Cardinality(inside) <= 1
                 /\ here # {} \/ (skip /\ ~Opt("includeskip")) \/ Blind(p, q, s)
                 /\ \A f \in inside : \E t \in lend : t.n = F[f].t /\ (t.vec = F[f].vec \/ t.n = "skip")
            ELSE inside = {}

Drawn ==
  Ready => \A a \in 0..2 : \A i \in 2 .. Dim(a) : \A j \in 1 .. Dim(Others(a)[1]) : \A k \in 1 .. Dim(Others(a)[2]) : RectRight(a, i, j, k)

\* together with Drawn: nothing is drawn twice, even in slivers between the probes (only where no side may be skipped)
Total ==
  (Ready /\ ~C.hasskip) => \A a \in 0..2 : \A i \in 2 .. Dim(a) : \A s \in {-1, 1} :
    LET o == Others(a)
        u == Line(o[1])
        v == Line(o[2])
        all == {<<j, k>> \in (1 .. Dim(o[1])) \X (1 .. Dim(o[2])) : s \in Draw(Cell3(a, i - 1, j, k), Cell3(a, i, j, k))}
        free == {r \in all : Blind(Cell3(a, i - 1, r[1], r[2]), Cell3(a, i, r[1], r[2]), s)}
        fs == {f \in byplane[a][i] : F[f].s = s}
        Sum(rs) == FoldSet(LAMBDA r, acc : acc + 2 * (u[r[1]+1] - u[r[1]]) * (v[r[2]+1] - v[r[2]]), 0, rs)
        got == FoldSet(LAMBDA f, acc : acc + Abs(Area2(F[f].v, 1)), 0, fs)
    IN  got <= Sum(all) /\ got >= Sum(all \ free)

\* No leaf but the shared solid one may omit a face on its border, or list one that has nothing to do with it.
\* A surface may be cut in pieces when its border is repaired; a leaf lists all the pieces.
Marks ==
  Ready => \A l \in DOMAIN C.marks :
    LET listed == {C.marks[l][i] : i \in DOMAIN C.marks[l]}
        border == {f \in DOMAIN F : <<-l, f>> \in covers}
    IN  IF l = 1 THEN listed = {} ELSE
            /\ border \subseteq listed
            /\ Len(C.marks[l]) = Cardinality(listed)
            /\ \A f \in listed \ border : \E g \in border : F[g].a = F[f].a /\ F[g].d = F[f].d /\ F[g].s = F[f].s /\ F[g].t = F[f].t /\ F[g].vec = F[f].vec

WrongRects == IF ~Ready THEN {} ELSE
  {<<a, i, j, k>> \in (0..2) \X (2 .. Max2(Dim(0), Max2(Dim(1), Dim(2)))) \X (1 .. Max2(Dim(0), Dim(1))) \X (1 .. Max2(Dim(1), Dim(2))) :
     i <= Dim(a) /\ j <= Dim(Others(a)[1]) /\ k <= Dim(Others(a)[2]) /\ ~RectRight(a, i, j, k)}
Describe(r) ==
  LET a == r[1] i == r[2] j == r[3] k == r[4] o == Others(a) p == Cell3(a, i - 1, j, k) q == Cell3(a, i, j, k)
  IN  [axis |-> a, at |-> Line(a)[i], u |-> <<Line(o[1])[j], Line(o[1])[j+1]>>, v |-> <<Line(o[2])[k], Line(o[2])[k+1]>>,
       below |-> CellBits(p), above |-> CellBits(q), draw |-> Draw(p, q), faces |-> {F[f] : f \in byplane[a][i]}]
WrongMarks == IF ~Ready THEN {} ELSE
  {<<l, {F[f] : f \in ({C.marks[l][i] : i \in DOMAIN C.marks[l]} \ {f \in DOMAIN F : <<-l, f>> \in covers})},
     {F[f] : f \in ({f \in DOMAIN F : <<-l, f>> \in covers} \ {C.marks[l][i] : i \in DOMAIN C.marks[l]})},
     {CellBits(c) : c \in {c \in DOMAIN leaf : leaf[c] = -l}}>> : l \in DOMAIN C.marks}
FAlias == [ci |-> ci, marks |-> {w \in WrongMarks : w[1] > 1 /\ (w[2] # {} \/ w[3] # {})}, phase |-> phase, leak |-> leak,
           bad |-> LET w == WrongRects IN IF w = {} THEN {} ELSE {Describe(CHOOSE r \in w : TRUE)}]
=============================================================================
