-------------------------------- MODULE Areas --------------------------------
(***************************************************************************)
(* What a Quake II engine collides with, and the areas it draws and sends: *)
(* the brush lump, the brushes each leaf lists, the contents of the leafs, *)
(* and the areas that areaportals cut the world into.  The pipeline of     *)
(* VoxelWorld fills the world; the contents of brushes, and of mixtures of *)
(* brushes, are those of Contents.tla.                                     *)
(*                                                                         *)
(* C.brushes[i]  = [lo, hi, k, con, surf, ap, tex]  of the world or model: *)
(*                 native contents bits, surface bits, number of the       *)
(*                 areaportal entity (0: none), name of the six sides      *)
(* C.all         = the brushes of the whole map, C.bsp the exported ones:  *)
(*                 [lo, hi, con, tex]; C.lists[l] the brushes of leaf l;   *)
(* C.leafcon[l], C.leafarea[l]; C.areas, C.aps, C.styles                   *)
(***************************************************************************)
EXTENDS VoxelWorld
K == INSTANCE Contents

Set(s) == {s[i] : i \in DOMAIN s}
\* contents of a brush by its text
Con(b) == IF b.ap > 0 THEN {K!AREAPORTAL}
          ELSE LET f == K!FaceContents("q2", "other", Set(b.surf), K!FromNative2(Set(b.con)))
               IN  IF b.k = "detail" /\ K!SOLID \in f THEN K!MakeDetail("q2", "solid", f) ELSE f
\* contents of a mixture
Mix(S) == IF \E x \in S : K!Structural(x) THEN {K!SOLID} ELSE UNION S
Cover(c) == LET x == IX(grid, c) y == IY(grid, c) z == IZ(grid, c) IN {i \in DOMAIN boxes : InRange(boxes[i].r, x, y, z)}
At(c) == Mix({Con(C.brushes[i]) : i \in Cover(c)})
L(c) == -leaf[c]
Filled(c) == c \in sealed \/ c \in dsealed
Ready == phase = "check"

---------------------------------------------------------------------------
(* brushes *)
Same(x, b) == /\ x.lo = b.lo /\ x.hi = b.hi
              /\ Set(x.con) = K!ToNative2(K!Remap("q2", Con(b), FALSE))
              /\ b.ap > 0 \/ x.tex = b.tex
Brushes == (Ready /\ C.model = 0) => \A i \in DOMAIN C.bsp : \E j \in DOMAIN C.all : Same(C.bsp[i], C.all[j])

\* leafs hold the contents of their points
LeafContents == Ready =>
  \A c \in CellsOf : Set(C.leafcon[L(c)]) = (IF Filled(c) THEN {0} ELSE K!ToNative2(K!Remap("q2", At(c), TRUE)))

\* a trace against the brushes of the leaf meets, at every point, what is there
Inside(b, c) == LET m == Mid2(grid, c) IN \A a \in 1 .. 3 : m[a] > 2 * b.lo[a] /\ m[a] < 2 * b.hi[a]
Eff(S) == LET m == Mix(S) IN IF K!SOLID \in m THEN {K!SOLID} ELSE m
Listed(c) == Eff({K!FromNative2(Set(C.bsp[i].con)) : i \in {j \in Set(C.lists[L(c)]) : Inside(C.bsp[j], c)}})
LeafBrushes == Ready => \A c \in CellsOf : Filled(c) \/ Listed(c) = Eff({K!FromNative2(K!ToNative2(K!Remap("q2", Con(C.brushes[i]), FALSE))) : i \in Cover(c)})
\* and no leaf lists a brush that does not come near it
Touches == (Ready /\ (\E c \in CellsOf : Set(C.leafcon[L(c)]) # {0})) =>
  LET cells == TLCEval([l \in {L(c) : c \in CellsOf} |-> {c \in CellsOf : L(c) = l}])
  IN  \A l \in DOMAIN cells : \A i \in Set(C.lists[l]) : \E c \in cells[l] : Inside(C.bsp[i], c)

---------------------------------------------------------------------------
(* areas *)
HasAreas == Ready /\ C.model = 0 /\ ~leak /\ ~Opt("nofill") /\ Occupied # {}
Portal(c) == ~Filled(c) /\ K!AREAPORTAL \in At(c)
Pass(c) == ~Filled(c) /\ K!AREAPORTAL \notin At(c) /\ ~K!Structural(At(c))
Open(c) == K!SOLID \notin At(c)
Area(c) == C.leafarea[L(c)]
RECURSIVE Grown(_, _, _)
Grown(S, F, P) == LET nx == TLCEval(({n \in UNION {Nbrs(grid, x) : x \in F} : n \in P}) \ S)
                  IN  IF nx = {} THEN S ELSE Grown(S \cup nx, nx, P)
\* areas of open space: one number for each part that is connected without areaportals
Separated == HasAreas =>
  LET P == TLCEval({c \in CellsOf : Pass(c)})
      O == TLCEval({c \in P : Open(c)})
      nums == TLCEval({Area(c) : c \in O})
      parts == TLCEval([n \in nums |-> LET s == CHOOSE c \in O : Area(c) = n IN Grown({s}, {s}, P)])
  IN  /\ 0 \notin nums
      /\ \A n \in nums : \A c \in O : (c \in parts[n]) <=> (Area(c) = n)
      /\ nums \subseteq 1 .. Len(C.areas) - 1
\* the areas (numbers of connected parts) an areaportal touches
Cells(e) == {c \in CellsOf : Portal(c) /\ \E i \in Cover(c) : C.brushes[i].ap = e}
Beside(e) == {Area(n) : n \in {x \in UNION {Nbrs(grid, c) : c \in Cells(e)} : Pass(x) /\ Open(x)}}
\* detail in the way: areas are still joined through it, but it has no number the file must tell
Hidden(e) == \E n \in UNION {Nbrs(grid, c) : c \in Cells(e)} : Pass(n) /\ ~Open(n)
Es == 1 .. Len(C.styles)
Entries(i) == {<<C.aps[j][1], C.aps[j][2]>> : j \in {x \in DOMAIN C.aps : x - 1 >= C.areas[i + 1][2] /\ x - 1 < C.areas[i + 1][2] + C.areas[i + 1][1]}} \ {<<0, 0>>}
Joined == HasAreas =>
  LET T == TLCEval([e \in Es |-> Beside(e)])
      Plain == TLCEval({e \in Es : ~Hidden(e) /\ Cardinality(T[e]) <= 2})
      nums == {C.styles[e] : e \in Plain}
  IN  /\ \A e \in Es : C.styles[e] = e
      /\ \A i \in 1 .. Len(C.areas) - 1 :
           {x \in Entries(i) : x[1] \in nums}
           = {<<C.styles[e], IF Cardinality(T[e]) = 2 THEN CHOOSE o \in T[e] : o # i ELSE 0>> : e \in {x \in Plain : i \in T[x]}}
      /\ \A i \in 1 .. Len(C.areas) - 1 : \A x \in Entries(i) : x[1] \in 1 .. Len(C.styles) /\ x[2] \in 0 .. Len(C.areas) - 1
\* inside an areaportal one is in one of its areas
Within == HasAreas => \A e \in Es : LET T == Beside(e) IN \A c \in Cells(e) : (Open(c) /\ T # {} /\ ~Hidden(e)) => Area(c) \in T

\* a map with a leak is one area, and its areaportals are none
Leaked == (Ready /\ C.model = 0 /\ C.leaked) =>
  /\ \A c \in CellsOf : Area(c) = (IF Set(C.leafcon[L(c)]) = {0} THEN 0 ELSE 1)
  /\ Len(C.areas) = 2 /\ C.areas[1][1] = 0 /\ C.areas[2][1] = 0
  /\ \A i \in DOMAIN C.styles : C.styles[i] = 0
\* solid is in no area
NoArea == (Ready /\ C.model = 0) => \A c \in CellsOf : Set(C.leafcon[L(c)]) = {0} => Area(c) = 0

AAlias == [ci |-> ci, phase |-> phase, bad |-> IF phase # "check" THEN {} ELSE
   {[at |-> Mid2(grid, c), cover |-> {C.brushes[i].k : i \in Cover(c)}, con |-> Set(C.leafcon[L(c)]), want |-> At(c), listed |-> Listed(c), f |-> Filled(c), leaf |-> L(c), area |-> Area(c)] :
     c \in {x \in CellsOf : Set(C.leafcon[L(x)]) # (IF Filled(x) THEN {0} ELSE K!ToNative2(K!Remap("q2", At(x), TRUE)))
                            \/ ~(Filled(x) \/ Listed(x) = Eff({K!FromNative2(K!ToNative2(K!Remap("q2", Con(C.brushes[i]), FALSE))) : i \in Cover(x)}))}},
   ap |-> IF ~HasAreas THEN {} ELSE {[e |-> e, beside |-> Beside(e), hidden |-> Hidden(e), in |-> {<<Area(c), {C.brushes[j].k : j \in Cover(c)}, Set(C.leafcon[L(c)])>> : c \in Cells(e)}] : e \in Es},
   far |-> IF phase # "check" THEN {} ELSE
      LET cells == TLCEval([l \in {L(c) : c \in CellsOf} |-> {c \in CellsOf : L(c) = l}])
      IN  UNION {{<<l, C.bsp[i], {C.brushes[j].k : j \in UNION {Cover(c) : c \in cells[l]}}, {c \in cells[l] : TRUE} = {}, IF Cardinality(cells[l]) < 6 THEN {Mid2(grid, c) : c \in cells[l]} ELSE {}>> : i \in {x \in Set(C.lists[l]) : ~\E c \in cells[l] : Inside(C.bsp[x], c)}} : l \in DOMAIN cells},
   areas |-> IF ~HasAreas THEN {} ELSE {<<Area(c), Mid2(grid, c)>> : c \in {x \in CellsOf : Pass(x) /\ Open(x) /\ Area(x) = 0}},
   br |-> IF phase # "check" \/ C.model # 0 THEN {} ELSE {C.bsp[i] : i \in {x \in DOMAIN C.bsp : ~\E j \in DOMAIN C.all : Same(C.bsp[x], C.all[j])}}]
=============================================================================
