------------------------------ MODULE Contents ------------------------------
(* The algebra of contents and surface flags (common/bspfile.cc, one         *)
(* gamedef per game).  Contents are sets of flags; a game is "q1" (Quake,    *)
(* Hexen II and Half-Life share it) or "q2".                                 *)
EXTENDS Integers, FiniteSets, Sequences
SOLID == 0  SKY == 1  WALL == 2  WINDOW == 3  AUX == 4  LAVA == 5  SLIME == 6  WATER == 7  MIST == 8
ORIGIN == 9  CLIP == 10  MCLIP == 11  AREAPORTAL == 12  BLOCKER == 13
DETAIL == 14  MIRROR == 15  MIRRORSET == 16  NOCLIPSAME == 17  TRANSLUCENT == 24
Visible == 0..8
Invisible == 9..13
Types == Visible \cup Invisible
Liquids == {LAVA, SLIME, WATER}
Names == <<"SOLID", "SKY", "DETAIL_WALL", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", "ORIGIN", "PLAYERCLIP", "MONSTERCLIP", "AREAPORTAL",
  "ILLUSIONARY_VISBLOCKER", "DETAIL", "MIRROR_INSIDE", "MIRROR_INSIDE_SET", "SUPPRESS_CLIPPING_SAME_TYPE", "CURRENT_0", "CURRENT_90", "CURRENT_180",
  "CURRENT_270", "CURRENT_UP", "CURRENT_DOWN", "TRANSLUCENT", "LADDER", "MONSTER", "DEADMONSTER", "Q2_UNUSED_7", "Q2_UNUSED_8", "Q2_UNUSED_9",
  "Q2_UNUSED_10", "Q2_UNUSED_11", "Q2_UNUSED_12", "Q2_UNUSED_13", "Q2_UNUSED_14", "Q2_UNUSED_30", "Q2_UNUSED_31">>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Xor(a, b) == (a \ b) \cup (b \ a)
\* the strongest visible contents: the lowest bit wins
Strongest(a) == IF a \cap Visible = {} THEN {} ELSE {Min(a \cap Visible)}
------------------------------------------------------------------------------
(* native values.  A Quake value is a number, a Quake II value a set of bits *)
NativeBit == [b \in 0..31 |-> CASE b = 0 -> SOLID [] b = 1 -> WINDOW [] b = 2 -> AUX [] b = 3 -> LAVA [] b = 4 -> SLIME [] b = 5 -> WATER [] b = 6 -> MIST
                               [] b \in 7..14 -> b + 21 [] b = 15 -> AREAPORTAL [] b = 16 -> CLIP [] b = 17 -> MCLIP [] b \in 18..23 -> b
                               [] b = 24 -> ORIGIN [] b = 25 -> 26 [] b = 26 -> 27 [] b = 27 -> DETAIL [] b = 28 -> TRANSLUCENT [] b = 29 -> 25 [] b = 30 -> 36 [] b = 31 -> 37]
FromNative2(n) == {NativeBit[b] : b \in n}
Refused == {-1}
ToNative2(a) == IF a \cap {SKY, WALL, BLOCKER} # {} THEN Refused ELSE {b \in 0..31 : NativeBit[b] \in a}
FromNative1(n) == CASE n = -1 -> {} [] n = -2 -> {SOLID} [] n = -3 -> {WATER} [] n = -4 -> {SLIME} [] n = -5 -> {LAVA} [] n = -6 -> {SKY} [] OTHER -> Refused
ToNative1(a) == LET s == Strongest(a)
                IN CASE s = {} -> -1 [] s = {SOLID} -> -2 [] s = {SKY} -> -6 [] s = {LAVA} -> -5 [] s = {SLIME} -> -4 [] s = {WATER} -> -3 [] OTHER -> 1
------------------------------------------------------------------------------
(* predicates                                                                *)
AnySolid(a) == SOLID \in a
Structural(a) == SOLID \in a /\ DETAIL \notin a
IsSky(g, a) == g = "q1" /\ SKY \in a
IsLiquid(g, a) == IF g = "q1" THEN Strongest(a) \cap Liquids # {} ELSE a \cap (Liquids \cup {AREAPORTAL}) # {}
IsEmpty(g, a) == IF g = "q1" THEN a \cap (Visible \cup {ORIGIN, CLIP}) = {} ELSE a \cap Types = {}
IsClip(g, a) == a \cap (IF g = "q1" THEN {CLIP} ELSE {CLIP, MCLIP}) # {}
IsDetail(a) == DETAIL \in a
DetailSolid(a) == {DETAIL, SOLID} \subseteq a
DetailOf(g, a, t) == {DETAIL, t} \subseteq a /\ (g = "q2" => SOLID \notin a)
DetailWall(g, a) == DetailOf(g, a, WALL)
DetailFence(g, a) == DetailOf(g, a, WINDOW)
DetailIllusionary(g, a) == DetailOf(g, a, MIST) \/ (g = "q2" /\ DetailOf(g, a, AUX))
Opaque(g, a, tw) == IF g = "q1" THEN Strongest(a) \in {{SOLID}, {SKY}, {WALL}} \/ (~tw /\ Strongest(a) \cap Liquids # {})
                    ELSE Strongest(a) # {} /\ TRANSLUCENT \notin a
Seals(g, a) == Structural(a) \/ IsSky(g, a)
TypesEqual(g, a, b) == IF g = "q1" THEN a = b ELSE a \cap Types = b \cap Types
ClipsSame(g, a, b) == NOCLIPSAME \notin a /\ IF g = "q1" THEN a = b ELSE a \cap Visible = b \cap Visible
Valid(g, a, strict) == g = "q1" \/ ~strict \/ a \cap Visible # {}
------------------------------------------------------------------------------
(* making contents                                                           *)
MakeDetail(g, kind, a) == LET base == IF g = "q1" THEN {} ELSE IF kind = "solid" THEN a ELSE a \ {SOLID}
                          IN base \cup {DETAIL} \cup CASE kind = "solid" -> {SOLID} [] kind = "wall" -> {WALL} [] kind = "illusionary" -> {MIST}
                                                       [] kind = "fence" -> IF g = "q1" THEN {WINDOW} ELSE {WINDOW, TRANSLUCENT}
SetMirror(a, m) == CASE m = 0 -> a \ {MIRROR, MIRRORSET} [] m = 1 -> (a \ {MIRROR}) \cup {MIRRORSET} [] m = 2 -> a \cup {MIRROR, MIRRORSET}
GetMirror(a) == IF MIRRORSET \notin a THEN 0 ELSE IF MIRROR \in a THEN 2 ELSE 1
SetClips(a, m) == IF m = 1 THEN a \cup {NOCLIPSAME} ELSE a
Cluster(a, b) == (a \cup b) \ (IF SOLID \in a /\ SOLID \in b THEN {} ELSE {SOLID})
Combine(g, a, b) == IF Structural(a) \/ Structural(b) THEN {SOLID} ELSE IF IsSky(g, a) \/ IsSky(g, b) THEN {SKY} ELSE a \cup b
Remap(g, a, leaf) == IF g = "q1" THEN IF DetailFence(g, a) \/ DetailWall(g, a) THEN {SOLID} ELSE a \ {MIST}
                     ELSE IF WALL \in a \/ (leaf /\ SOLID \in a) THEN {SOLID} ELSE a
\* texture classes: "origin" "hint" "clip" "lava" "slime" "liquid" "sky" "other"; surface flags are sets of bits
SurfHint == 8  SurfSkip == 9  Trans33 == 4  Trans66 == 5  AlphaTest == 25
FaceContents(g, class, surf, a) ==
  IF g = "q1" THEN CASE class = "origin" -> {ORIGIN} [] class = "hint" -> {} [] class = "clip" -> {CLIP} [] class = "lava" -> {LAVA} [] class = "slime" -> {SLIME}
                     [] class = "liquid" -> {WATER} [] class = "sky" -> {SKY} [] OTHER -> {SOLID}
  ELSE IF surf \cap {SurfHint, SurfSkip} # {} THEN {}
  ELSE LET c1 == IF a \cap Types = {} THEN a \cup {SOLID} ELSE a
           c2 == IF surf \cap {Trans33, Trans66, AlphaTest} = {} THEN c1
                 ELSE (IF SOLID \in c1 THEN (c1 \ {SOLID}) \cup {WINDOW} ELSE c1) \cup {TRANSLUCENT}
       IN IF c2 \cap {TRANSLUCENT, MIST, AUX, CLIP, MCLIP} # {} THEN c2 \cup {DETAIL} ELSE c2
------------------------------------------------------------------------------
(* portals                                                                   *)
\* a side with detail (or translucent) contents is seen past, unless the other side has something of its own
SeeThrough(g, a, b, tw) ==
  LET loose(x) == DETAIL \in x \/ (IF g = "q1" THEN tw /\ x \cap Liquids # {} ELSE TRANSLUCENT \in x)
      va == a \cap Visible
      vb == b \cap Visible
  IN SOLID \notin a \cup b /\ (va = vb \/ (loose(a) /\ vb \subseteq va) \/ (loose(b) /\ va \subseteq vb) \/ (loose(a) /\ loose(b)))
PortalVisible(g, a, b) ==
  IF g = "q1" /\ a \cap {SOLID, SKY} # {} /\ b \cap {SOLID, SKY} # {} THEN {}
  ELSE Strongest(IF NOCLIPSAME \in a \cup b THEN a \cup b ELSE Xor(a, b))
GeneratesFace(g, pv, brush, back) ==
  LET s == Strongest(pv)
  IN /\ s # {} /\ s \subseteq brush
     /\ back => IF MIRRORSET \in brush THEN MIRROR \in brush
                ELSE IF g = "q1" THEN brush \cap Liquids # {} ELSE pv \cap {WINDOW, AUX} = {}
------------------------------------------------------------------------------
(* surface flags                                                             *)
Lightmapped(g, surf, tex, nodraw, grid) ==
  IF g = "q1" THEN tex \notin {"trigger", "skip"} /\ 0 \notin surf
  ELSE tex # "/trigger" /\ IF nodraw /\ 7 \in surf THEN TRUE ELSE IF grid /\ 2 \in surf THEN FALSE ELSE surf \cap {7, 9} = {}
Emissive(g, tex) == g = "q2" \/ tex # "trigger"
Subdivided(g, surf) == IF g = "q1" THEN 0 \notin surf ELSE 2 \notin surf
SurfValid(g, surf) == g = "q2" \/ surf \subseteq {0}
MayPhong(g, s, t) == LET mask == IF g = "q1" THEN {0} ELSE {2, 3, 4, 5, 6, 7} IN s \cap mask = t \cap mask
HintSkip(g, surf, ishint) == IF g = "q1" THEN ~ishint ELSE SurfHint \notin surf
------------------------------------------------------------------------------
(* The laws.  "In effect": what the game gets to see of a leaf, and what the *)
(* compiler decides by.                                                      *)
Effect(g, a) == LET r == Remap(g, a, TRUE)
                IN <<IF g = "q1" THEN {ToNative1(r)} ELSE ToNative2(r), IsLiquid(g, r), Strongest(a), Structural(a), IsSky(g, a), Seals(g, a)>>
CombineLaws(g, a, b, c) ==
  /\ Combine(g, a, b) = Combine(g, b, a)
  /\ Combine(g, Combine(g, a, b), c) = Combine(g, a, Combine(g, b, c))
  /\ Effect(g, Combine(g, a, a)) = Effect(g, a)
  /\ (Structural(a) \/ Structural(b)) <=> Structural(Combine(g, a, b))
  /\ (Seals(g, a) \/ Seals(g, b)) <=> Seals(g, Combine(g, a, b))
  /\ ~IsEmpty(g, a) => ~IsEmpty(g, Combine(g, a, b))
SightLaws(g, a, b, tw) ==
  /\ SeeThrough(g, a, b, tw) = SeeThrough(g, b, a, tw)
  /\ (AnySolid(a) \/ AnySolid(b)) => ~SeeThrough(g, a, b, tw)
  /\ (SeeThrough(g, a, b, tw) /\ a \cap Visible # b \cap Visible) => \A x \in {a, b} : Opaque(g, x, tw) => DETAIL \in x \/ x \cap Visible \subseteq a \cap b
  /\ (~Opaque(g, a, tw) /\ ~Opaque(g, b, tw) /\ (a \cup b) \cap {SOLID, WINDOW, MIST, AUX} = {}) => SeeThrough(g, a, b, tw)
\* detail within a cluster never hides what is behind it
DetailSightLaw(g, a, b, c, tw) == (SeeThrough(g, a, b, tw) /\ DETAIL \in c) => SeeThrough(g, Cluster(a, c), b, tw)
FaceLaws(g, a, b) ==
  LET pv == PortalVisible(g, a, b)
  IN /\ pv = PortalVisible(g, b, a) /\ pv \subseteq a \cup b /\ Cardinality(pv) <= 1
     /\ (pv # {} /\ NOCLIPSAME \notin a \cup b) => Cardinality({x \in {a, b} : GeneratesFace(g, pv, x, FALSE)}) = 1
     /\ GeneratesFace(g, pv, a, TRUE) => GeneratesFace(g, pv, a, FALSE)
     /\ (a \cap Visible = b \cap Visible /\ NOCLIPSAME \notin a \cup b) => pv = {}
PredicateLaws(g, a, tw) ==
  /\ Structural(a) => AnySolid(a) /\ ~DetailSolid(a) /\ Seals(g, a)
  /\ AnySolid(a) <=> (Structural(a) \/ DetailSolid(a))
  /\ IsEmpty(g, a) => a \cap Visible = {} /\ ~Opaque(g, a, tw) /\ ~Seals(g, a) /\ ~IsLiquid(g, a) /\ ~IsClip(g, a)
  /\ Seals(g, a) => Opaque(g, a, tw)
  /\ \A k \in {DetailSolid(a), DetailWall(g, a), DetailFence(g, a), DetailIllusionary(g, a)} : k => IsDetail(a)
  /\ IF g = "q1" THEN ToNative1(Remap(g, a, TRUE)) # 1 ELSE BLOCKER \in a \/ ToNative2(Remap(g, a, TRUE)) # Refused
==============================================================================
