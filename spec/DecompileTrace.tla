-------------------------- MODULE DecompileTrace --------------------------
(***************************************************************************)
(* Recorded decompilations.  A case holds the tree of one model of a real  *)
(* BSP, the faces on it, the boxes of the brushes the real decompiler      *)
(* wrote for it (each with what stands on its six sides), and the tree     *)
(* that the real compiler made of those brushes.  The specified walk is    *)
(* run on the tree; the real brushes must fill the same space.             *)
(* Brush sides are numbered -x +x -y +y -z +z.                             *)
(***************************************************************************)
EXTENDS Decompile, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

VARIABLES ci, phase, grid, at, back
vars == <<ci, phase, grid, at, back, todo, out>>

C == Cases[ci]
Empty == {C.empty[i] : i \in DOMAIN C.empty}
B == C.brushes

\* coordinates inside the model's bounds
Inside(S, a) == {x \in S : x > C.bounds.lo[a] /\ x < C.bounds.hi[a]}
FaceCuts(a) == UNION {{C.faces[i].lo[a], C.faces[i].hi[a]} : i \in DOMAIN C.faces}
AxisOf(a) == SetToSortSeq({C.bounds.lo[a], C.bounds.hi[a]} \cup
                          Inside(PlaneCuts(C.tree.nodes, a) \cup Cuts(B, a) \cup FaceCuts(a) \cup (IF C.recompiled THEN PlaneCuts(C.again.nodes, a) ELSE {}), a),
                          LAMBDA x, y : x < y)

Init ==
  /\ ci \in 1 .. Len(Cases)
  /\ phase = "walk"
  /\ grid = MkGrid(<<0, 1>>, <<0, 1>>, <<0, 1>>)
  /\ at = <<>> /\ back = <<>>
  /\ Start(Cases[ci].tree, Cases[ci].bounds)

Visit ==
  /\ phase = "walk" /\ todo # {}
  /\ Walk(C.tree, Empty)
  /\ UNCHANGED <<ci, phase, grid, at, back>>

Arrange ==
  /\ phase = "walk" /\ todo = {}
  /\ grid' = MkGrid(AxisOf(1), AxisOf(2), AxisOf(3))
  /\ phase' = "locate"
  /\ UNCHANGED <<ci, at, back, todo, out>>

Cells == 1 .. NCells(grid)
Mid(c) == Mid2(grid, c)

\* what the tree, and the tree of the recompiled map, say of every cell
Locate ==
  /\ phase = "locate"
  /\ at' = [c \in Cells |-> C.tree.leafs[-Descend(C.tree.nodes, C.tree.head, Mid(c))]]
  /\ back' = [c \in Cells |-> IF C.recompiled THEN C.again.leafs[-Descend(C.again.nodes, C.again.head, Mid(c))] ELSE at'[c]]
  /\ phase' = "check"
  /\ UNCHANGED <<ci, grid, todo, out>>

Next == Visit \/ Arrange \/ Locate
Spec == Init /\ [][Next]_vars

Over(c) == {i \in DOMAIN B : Covers(B[i], Mid(c))}

---------------------------------------------------------------------------
Done == phase = "check"
\* the walk itself says what the tree says
WalkFills == Done => \A c \in Cells : {x.k : x \in {y \in out : Covers(y.b, Mid(c))}} = (IF at[c] \in Empty THEN {} ELSE {at[c]})
\* no brush is open, or inside out
Closed == Done => \A i \in DOMAIN B : B[i].closed
\* the brushes written fill exactly what the tree fills, with what it fills it
Filled == (Done /\ C.filled) => \A c \in Cells : {B[i].k : i \in Over(c)} = (IF at[c] \in Empty THEN {} ELSE {at[c]})
\* each point by one brush
Apart == (Done /\ C.apart) => \A c \in Cells : Cardinality(Over(c)) <= 1
\* compiling the map again gives the same contents everywhere (except where the map format cannot say it: C.alike)
SameAs(x, y) == x = y \/ \E i \in DOMAIN C.alike : {x, y} \subseteq {C.alike[i][j] : j \in DOMAIN C.alike[i]}
Again == Done => \A c \in Cells : SameAs(back[c], at[c])

\* faces: the brush behind a facet carries one of the textures drawn on it, placed as it was
\* vectors to 1/256, offsets to 1/16
Near(u, v) == \A i \in DOMAIN u : u[i] - v[i] <= 2 /\ v[i] - u[i] <= 2
Span(s, lo, hi) == {i \in 1 .. Len(s) - 1 : s[i] >= lo /\ s[i + 1] <= hi}
Behind(s, f) == {i \in 1 .. Len(s) - 1 : (IF f.s = 1 THEN s[i + 1] ELSE s[i]) = f.d}
Along(s, f, a) == IF f.a = a - 1 THEN Behind(s, f) ELSE Span(s, f.lo[a], f.hi[a])
\* the cells right behind a face
Facets(f) == {CellAt(grid, i, j, k) : i \in Along(grid.x, f, 1), j \in Along(grid.y, f, 2), k \in Along(grid.z, f, 3)}
Within(f, c) == LET m == Mid(c) IN \A a \in (1 .. 3) \ {f.a + 1} : m[a] > 2 * f.lo[a] /\ m[a] < 2 * f.hi[a]
SideNo(f) == 2 * f.a + (IF f.s = 1 THEN 2 ELSE 1)
SideAt(b, f) == (IF f.s = 1 THEN b.hi[f.a + 1] ELSE b.lo[f.a + 1]) = f.d
WrongOf(fi) ==
  LET f == C.faces[fi]
      same == {j \in DOMAIN C.faces : C.faces[j].a = f.a /\ C.faces[j].s = f.s /\ C.faces[j].d = f.d}
  IN  {c \in Facets(f) :
         /\ at[c] \notin Empty
         /\ f.k \in {"", at[c]}     \* the surface of a liquid seen from inside it belongs to no brush behind it
         /\ ~ \E i \in Over(c) : SideAt(B[i], f) /\ \E j \in {x \in same : Within(C.faces[x], c)} :
               B[i].tex[SideNo(f)].t = C.faces[j].t /\ Near(B[i].tex[SideNo(f)].vec, C.faces[j].vec)}
Wrong == {w \in UNION {{<<fi, c>> : c \in WrongOf(fi)} : fi \in DOMAIN C.faces} : TRUE}
Textured == (Done /\ C.textured) => Wrong = {}

\* the entity of this model: its keys, and where its brushes stand
Keys == Done => C.keys.got = C.keys.want
Placed == Done => C.place.got = C.place.want
\* maps with a brush lump: the brushes of the lump that the model's leaves list, each once, in order, unchanged
Lump == Done => C.lump.got = C.lump.want

Bad == IF Done THEN [cells |-> {[m |-> Mid(c), want |-> at[c], got |-> {B[i].k : i \in Over(c)}, n |-> Cardinality(Over(c)), again |-> back[c]] :
                                 c \in {x \in Cells : (C.filled /\ {B[i].k : i \in Over(x)} # (IF at[x] \in Empty THEN {} ELSE {at[x]})) \/ ~ SameAs(back[x], at[x]) \/ (C.apart /\ Cardinality(Over(x)) > 1)}},
                     faces |-> IF C.textured THEN {<<C.faces[w[1]], Mid(w[2]), {<<i, B[i].tex[SideNo(C.faces[w[1]])]>> : i \in Over(w[2])}>> : w \in Wrong} ELSE {}]
       ELSE [cells |-> {}, faces |-> {}]
Alias == [ci |-> ci, phase |-> phase, bad |-> Bad, left |-> todo]
=============================================================================
