---------------------------- MODULE ContentsMC ----------------------------
(* The laws of Contents.tla over everything brushes can be given and every   *)
(* mixture of two such brushes.                                              *)
EXTENDS Contents
CONSTANTS G, NativeBits
Plain1 == {{}, {SOLID}, {SKY}, {LAVA}, {SLIME}, {WATER}, {ORIGIN}, {CLIP}}
Base1 == Plain1 \cup {x \cup {DETAIL} : x \in Plain1} \cup {x \cup {BLOCKER} : x \in {{WATER}, {LAVA}}} \cup {MakeDetail("q1", k, {}) : k \in {"solid", "wall", "fence", "illusionary"}}
Natives == SUBSET NativeBits
Raw2 == {FaceContents("q2", "other", s, FromNative2(n)) : n \in Natives, s \in {{}, {Trans33}, {SurfHint}}}
Raw2s == {x \in Raw2 : Cardinality(x \cap Types) <= 1}
Base2 == Raw2s \cup {MakeDetail("q2", k, x) : k \in {"solid", "wall", "fence", "illusionary"}, x \in {{SOLID}, {WATER}, {SOLID, 18}}}
Base == IF G = "q1" THEN Base1 ELSE Base2
Flags == {{}, {NOCLIPSAME}, {MIRRORSET}, {MIRRORSET, MIRROR}}
Mixed == Base \cup {Combine(G, x, y) : x \in Base, y \in Base}
VARIABLES a, b, c, tw, step
Init == a \in Mixed /\ b = {} /\ c = {} /\ tw \in BOOLEAN /\ step = 0
Next == \/ step = 0 /\ step' = 1 /\ b' \in Mixed /\ UNCHANGED <<a, c, tw>>
        \/ step = 1 /\ tw /\ step' = 2 /\ c' \in Base /\ UNCHANGED <<a, b, tw>>
        \/ step = 1 /\ step' = 3 /\ (\E f \in Flags, h \in Flags : a' = a \cup f /\ b' = b \cup h) /\ UNCHANGED <<c, tw>>
Spec == Init /\ [][Next]_<<a, b, c, tw, step>>
Combines == step = 2 => CombineLaws(G, a, b, c) /\ DetailSightLaw(G, a, b, c, tw) /\ DetailSightLaw(G, a, b, c, FALSE)
Sights == step = 1 => SightLaws(G, a, b, tw)
Faces == step = 3 => FaceLaws(G, a, b)
Predicates == step = 0 => PredicateLaws(G, a, tw)
==============================================================================
