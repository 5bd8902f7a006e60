------------------------------- MODULE Boxes -------------------------------
(***************************************************************************)
(* Worlds made of axis-aligned boxes with integer coordinates, and the     *)
(* arrangement of cells they cut space into.  A "grid" is the three sorted *)
(* lists of cut coordinates plus one unbounded margin interval at each     *)
(* end; a cell is a number 1..NX*NY*NZ.  Every point of space that is on   *)
(* no cut lies in exactly one cell, so a statement about all cells is a    *)
(* statement about all points.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Margin == 8

\* sorted sequence of a set of integers, with a margin coordinate at both ends
Axis(S) ==
  LET lo == CHOOSE m \in S : \A x \in S : m <= x
      hi == CHOOSE m \in S : \A x \in S : m >= x
  IN  SetToSortSeq(S \cup {lo - Margin, hi + Margin}, LAMBDA a, b : a < b)

\* coordinates of boxes (records with lo, hi) on axis a
Cuts(boxes, a) == UNION {{boxes[i].lo[a], boxes[i].hi[a]} : i \in DOMAIN boxes}

\* axial planes of a tree: a = 0,1,2 ; d = distance
PlaneCuts(nodes, a) == {nodes[i].d : i \in {j \in DOMAIN nodes : nodes[j].a = a - 1}}

MkGrid(X, Y, Z) ==
  [x |-> X, y |-> Y, z |-> Z, nx |-> Len(X) - 1, ny |-> Len(Y) - 1, nz |-> Len(Z) - 1]

NCells(g) == g.nx * g.ny * g.nz
IX(g, c) == ((c - 1) % g.nx) + 1
IY(g, c) == (((c - 1) \div g.nx) % g.ny) + 1
IZ(g, c) == ((c - 1) \div (g.nx * g.ny)) + 1
CellAt(g, i, j, k) == 1 + (i - 1) + g.nx * ((j - 1) + g.ny * (k - 1))

\* twice the midpoint of a cell
Mid2(g, c) == LET i == IX(g, c) j == IY(g, c) k == IZ(g, c)
              IN  <<g.x[i] + g.x[i+1], g.y[j] + g.y[j+1], g.z[k] + g.z[k+1]>>

InBox2(m, b) == /\ m[1] > 2 * b.lo[1] /\ m[1] < 2 * b.hi[1]
                /\ m[2] > 2 * b.lo[2] /\ m[2] < 2 * b.hi[2]
                /\ m[3] > 2 * b.lo[3] /\ m[3] < 2 * b.hi[3]

\* the cells covered by a box whose sides are all cuts of the grid
Idx(s, v) == CHOOSE i \in DOMAIN s : s[i] = v
BoxRange(g, b) == <<Idx(g.x, b.lo[1]), Idx(g.x, b.hi[1]), Idx(g.y, b.lo[2]), Idx(g.y, b.hi[2]), Idx(g.z, b.lo[3]), Idx(g.z, b.hi[3])>>
InRange(r, x, y, z) == x >= r[1] /\ x < r[2] /\ y >= r[3] /\ y < r[4] /\ z >= r[5] /\ z < r[6]

\* cells sharing a face of positive area
Nbrs(g, c) ==
  LET i == IX(g, c) j == IY(g, c) k == IZ(g, c)
      nxy == g.nx * g.ny
  IN  (IF i > 1 THEN {c - 1} ELSE {}) \cup (IF i < g.nx THEN {c + 1} ELSE {})
      \cup (IF j > 1 THEN {c - g.nx} ELSE {}) \cup (IF j < g.ny THEN {c + g.nx} ELSE {})
      \cup (IF k > 1 THEN {c - nxy} ELSE {}) \cup (IF k < g.nz THEN {c + nxy} ELSE {})

IsMargin(g, c) == LET i == IX(g, c) j == IY(g, c) k == IZ(g, c)
                  IN i = 1 \/ i = g.nx \/ j = 1 \/ j = g.ny \/ k = 1 \/ k = g.nz

\* the interval of s that contains v (v is never a cut)
Slot(s, v) == IF v < s[1] THEN 1 ELSE IF v > s[Len(s)] THEN Len(s) - 1
              ELSE CHOOSE i \in 1 .. Len(s) - 1 : s[i] < v /\ v < s[i+1]
CellOf(g, p) == CellAt(g, Slot(g.x, p[1]), Slot(g.y, p[2]), Slot(g.z, p[3]))

(***************************************************************************)
(* BSP trees.  A node is [a, d, n, c]: axial plane a (0,1,2) at distance d *)
(* or (a = 3) a general plane with normal n; c = <<front, back>>; children *)
(* >= 0 are nodes (numbered from 0), negative ones are leaves.             *)
(***************************************************************************)
Front2(nd, m) == IF nd.a = 3 THEN nd.n[1] * m[1] + nd.n[2] * m[2] + nd.n[3] * m[3] >= 2 * nd.d
                 ELSE m[nd.a + 1] >= 2 * nd.d
RECURSIVE Descend(_, _, _)
Descend(nodes, n, m) ==
  IF n < 0 THEN n
  ELSE LET nd == nodes[n + 1]
       IN  Descend(nodes, IF Front2(nd, m) THEN nd.c[1] ELSE nd.c[2], m)
=============================================================================
