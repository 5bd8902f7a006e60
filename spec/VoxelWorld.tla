----------------------------- MODULE VoxelWorld -----------------------------
(***************************************************************************)
(* What the compiler must do with a world of boxes: classify space,        *)
(* decide what the occupants can reach, report a leak or fill what they    *)
(* cannot reach, fill what is enclosed in detail, and represent the result *)
(* in a BSP tree.  One behaviour per (map, hull); the initial state picks  *)
(* the recorded case, the tree the real compiler produced is part of the   *)
(* case and is compared with the specified world when the pipeline is done.*)
(***************************************************************************)
EXTENDS Boxes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

CONSTANT Skip0   \* leave the drawing hull to another check

VARIABLES
  ci,      \* the case
  h,       \* the hull (0 = drawing hull)
  phase,   \* where the pipeline is
  grid,    \* the arrangement
  boxes,   \* the solids of this hull
  kinds,   \* cell -> set of kinds of the boxes covering it
  reach,   \* cells the occupants have been found to reach
  front,   \* ... in the last step of the flood
  leak,    \* the flood reached the void
  sealed,  \* cells turned into structural solid
  dreach,  \* cells the occupants can see into when all solids block
  dsealed, \* cells turned into detail solid
  leaf     \* cell -> leaf (negative) of the real tree
vars == <<ci, h, phase, grid, boxes, kinds, reach, front, leak, sealed, dreach, dsealed, leaf>>

C == Cases[ci]
Opt(o) == o \in DOMAIN C.opts /\ C.opts[o]

---------------------------------------------------------------------------
(* Hulls.  A player box of the given extents is somewhere exactly when its *)
(* reference point is outside every solid grown by those extents.          *)
Hulls ==
  [q1 |-> <<[lo |-> <<-16, -16, -24>>, hi |-> <<16, 16, 32>>], [lo |-> <<-32, -32, -24>>, hi |-> <<32, 32, 64>>]>>,
   h2 |-> <<[lo |-> <<-16, -16, -24>>, hi |-> <<16, 16, 32>>], [lo |-> <<-24, -24, -20>>, hi |-> <<24, 24, 20>>],
            [lo |-> <<-16, -16, -12>>, hi |-> <<16, 16, 16>>], [lo |-> <<-8, -8, -8>>, hi |-> <<8, 8, 8>>],
            [lo |-> <<-28, -28, -40>>, hi |-> <<28, 28, 40>>]>>,
   hl |-> <<[lo |-> <<-16, -16, -36>>, hi |-> <<16, 16, 36>>], [lo |-> <<-32, -32, -32>>, hi |-> <<32, 32, 32>>],
            [lo |-> <<-16, -16, -18>>, hi |-> <<16, 16, 18>>]>>,
   q2 |-> <<>>]
Grow(b, hu) ==
  LET e == Hulls[C.game][hu]
  IN  [lo |-> <<b.lo[1] - e.hi[1], b.lo[2] - e.hi[2], b.lo[3] - e.hi[3]>>,
       hi |-> <<b.hi[1] - e.lo[1], b.hi[2] - e.lo[2], b.hi[3] - e.lo[3]>>, k |-> "solid"]

Detail == {"detail", "fence", "wall", "illus"}
\* what a brush of kind k is in hull 0 / in the collision hulls ("none": absent)
Kind0(k) ==
  CASE k \in {"clip", "hint"} -> "none"
    [] k \in Detail /\ Opt("nodetail") -> "solid"
    [] k \in Detail /\ Opt("omitdetail") -> "none"
    [] k = "fence" /\ Opt("omitdetailfence") -> "none"
    [] k = "wall" /\ Opt("omitdetailwall") -> "none"
    [] k = "illus" /\ Opt("omitdetailillusionary") -> "none"
    [] OTHER -> k
KindH(k) == LET e == IF k = "clip" THEN "clip" ELSE Kind0(k)
            IN  IF e \in {"solid", "sky", "clip", "detail", "fence", "wall"} THEN "solid" ELSE "none"

HullBoxes(hu) ==
  LET B == C.brushes
      s == [i \in DOMAIN B |-> IF hu = 0 THEN [B[i] EXCEPT !.k = Kind0(B[i].k)]
                               ELSE IF KindH(B[i].k) = "none" THEN [B[i] EXCEPT !.k = "none"] ELSE Grow(B[i], hu)]
  IN  SelectSeq(s, LAMBDA b : b.k # "none")

Tree(hu) == IF hu = 0 THEN C.tree ELSE C.hulls[hu]
AllCuts(hu, a) ==
  LET t == Tree(hu)
      bs == HullBoxes(hu)
      extra == IF "cuts" \in DOMAIN C THEN {C.cuts[a][i] : i \in DOMAIN C.cuts[a]} ELSE {}
  IN  {0} \cup extra \cup Cuts(bs, a) \cup PlaneCuts(t.nodes, a)

---------------------------------------------------------------------------
(* Contents of a cell from the kinds of the boxes covering it.             *)
Structural(K) == "solid" \in K
Sky(K) == "sky" \in K /\ ~Structural(K)
SealsK(K) == "solid" \in K \/ "sky" \in K
AnySolidK(K) == "solid" \in K \/ "detail" \in K
OpaqueK(K) == AnySolidK(K) \/ "sky" \in K
\* contents stored in a Quake leaf
Exported(K) ==
  CASE "solid" \in K -> "SOLID"
    [] "sky" \in K -> "SKY"
    [] K \cap {"detail", "fence", "wall"} # {} -> "SOLID"
    [] "lava" \in K -> "LAVA"
    [] "slime" \in K -> "SLIME"
    [] "water" \in K -> "WATER"
    [] OTHER -> "EMPTY"

N == NCells(grid)
CellsOf == 1 .. N
Occupied ==
  {c \in {CellOf(grid, C.ents[i].p) : i \in {j \in DOMAIN C.ents : ~C.ents[j].nofill}} : ~SealsK(kinds[c])}
Void == {c \in CellsOf : IsMargin(grid, c)}

---------------------------------------------------------------------------
Init ==
  /\ ci \in 1 .. Len(Cases)
  /\ h \in (IF Skip0 THEN 1 ELSE 0) .. Len(Cases[ci].hulls)
  /\ phase = "arrange"
  /\ grid = MkGrid(<<0, 1>>, <<0, 1>>, <<0, 1>>)
  /\ boxes = <<>> /\ kinds = <<>> /\ leaf = <<>>
  /\ reach = {} /\ front = {} /\ leak = FALSE
  /\ sealed = {} /\ dreach = {} /\ dsealed = {}

Arrange ==
  /\ phase = "arrange"
  /\ boxes' = HullBoxes(h)
  /\ grid' = MkGrid(Axis(AllCuts(h, 1)), Axis(AllCuts(h, 2)), Axis(AllCuts(h, 3)))
  /\ phase' = "index"
  /\ UNCHANGED <<ci, h, kinds, reach, front, leak, sealed, dreach, dsealed, leaf>>

\* the boxes as ranges of intervals of the grid
Index ==
  /\ phase = "index"
  /\ boxes' = [i \in DOMAIN boxes |-> [k |-> boxes[i].k, r |-> BoxRange(grid, boxes[i])]]
  /\ phase' = "classify"
  /\ UNCHANGED <<ci, h, grid, kinds, reach, front, leak, sealed, dreach, dsealed, leaf>>

Classify ==
  /\ phase = "classify"
  /\ kinds' = [c \in CellsOf |-> LET x == IX(grid, c) y == IY(grid, c) z == IZ(grid, c)
                                IN {boxes[i].k : i \in {j \in DOMAIN boxes : InRange(boxes[j].r, x, y, z)}}]
  /\ phase' = "locate"
  /\ UNCHANGED <<ci, h, grid, boxes, reach, front, leak, sealed, dreach, dsealed, leaf>>

\* where the real tree puts each cell
Locate ==
  /\ phase = "locate"
  /\ LET t == Tree(h) IN leaf' = [c \in CellsOf |-> Descend(t.nodes, t.head, Mid2(grid, c))]
  /\ phase' = "occupy"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, leak, sealed, dreach, dsealed>>

Occupy ==
  /\ phase = "occupy"
  /\ front' = (IF Opt("nofill") THEN {} ELSE IF Opt("outside") THEN Void ELSE Occupied)
  /\ reach' = front'
  /\ phase' = IF Opt("nofill") \/ Occupied = {} THEN "check" ELSE "flood"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, leak, sealed, dreach, dsealed, leaf>>

Flood ==
  /\ phase = "flood"
  /\ front # {}
  /\ LET nx == {c \in UNION {Nbrs(grid, x) : x \in front} : c \notin reach /\ ~SealsK(kinds[c])}
     IN  front' = nx /\ reach' = reach \cup nx
  /\ UNCHANGED <<ci, h, phase, grid, boxes, kinds, leak, sealed, dreach, dsealed, leaf>>

Decide ==
  /\ phase = "flood"
  /\ front = {}
  /\ leak' = IF Opt("outside") THEN Occupied \cap reach # {} ELSE Void \cap reach # {}
  /\ sealed' = IF leak' THEN {}
               ELSE IF Opt("outside") THEN reach
               ELSE {c \in CellsOf : c \notin reach /\ ~SealsK(kinds[c])}
  /\ phase' = IF leak' \/ Opt("nofilldetail") THEN "check" ELSE "doccupy"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, dreach, dsealed, leaf>>

DOccupy ==
  /\ phase = "doccupy"
  /\ front' = Occupied
  /\ dreach' = front'
  /\ phase' = "dflood"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, leak, sealed, dsealed, leaf>>

DFlood ==
  /\ phase = "dflood"
  /\ front # {}
  /\ LET nx == {c \in UNION {Nbrs(grid, x) : x \in {y \in front : ~OpaqueK(kinds[y])}} : c \notin dreach /\ ~OpaqueK(kinds[c]) /\ c \notin sealed}
     IN  front' = nx /\ dreach' = dreach \cup nx
  /\ UNCHANGED <<ci, h, phase, grid, boxes, kinds, reach, leak, sealed, dsealed, leaf>>

DDecide ==
  /\ phase = "dflood"
  /\ front = {}
  /\ dsealed' = {c \in CellsOf : c \notin dreach /\ ~OpaqueK(kinds[c]) /\ c \notin sealed}
  /\ phase' = "check"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, leak, sealed, dreach, leaf>>

Next == Arrange \/ Index \/ Classify \/ Locate \/ Occupy \/ Flood \/ Decide \/ DOccupy \/ DFlood \/ DDecide
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the specified contents of a cell
Want(c) == IF c \in sealed \/ c \in dsealed THEN "SOLID" ELSE Exported(kinds[c])
Got(c) == Tree(h).leafs[-leaf[c]]

\* C01: every point of the drawing hull has the specified contents
ContentsRight == (phase = "check" /\ h = 0) => \A c \in CellsOf : Want(c) = Got(c)

\* C02: the collision hulls are solid exactly where a box of the hull's size touches something solid
HullRight ==
  (phase = "check" /\ h > 0) =>
    \A c \in CellsOf : (Got(c) = "SOLID") <=> (c \in sealed \/ c \in dsealed \/ kinds[c] # {})

\* C03: a leak is reported exactly when an occupant of the drawing hull can reach the void
LeakRight == (phase = "check" /\ h = 0) => (C.leaked = leak)

Bad == IF phase # "check" THEN {}
       ELSE {[cell |-> Mid2(grid, c), want |-> Want(c), got |-> Got(c), kinds |-> kinds[c]] :
              c \in {x \in CellsOf : IF h = 0 THEN Want(x) # Got(x) ELSE (Got(x) = "SOLID") # (x \in sealed \/ x \in dsealed \/ kinds[x] # {})}}
Alias == [ci |-> ci, h |-> h, phase |-> phase, leak |-> leak, bad |-> Bad]
=============================================================================
