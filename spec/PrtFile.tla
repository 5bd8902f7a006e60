------------------------------ MODULE PrtFile ------------------------------
(* The three dialects of portal files, as a grammar over tokens, and what a  *)
(* reader must make of a file: exactly its content when it is well formed,   *)
(* a refusal when it ends early or a number in it is impossible.             *)
(* A token is <<kind, value>>: 0 integer, 1 decimal (thousandths), 2 "(",    *)
(* 3 ")", 4 anything else.  Integers also carry their value in thousandths   *)
(* where a coordinate is expected.                                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES ci, i, verdict
Blocks == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Blocks[ci][i]
T == C.toks
Refuse(why) == [what |-> "refuse", why |-> why]
Either(why) == [what |-> "either", why |-> why]

End(p) == p > Len(T)
IsInt(p) == ~End(p) /\ T[p][1] = 0
\* what to answer when an integer was expected at p
NotInt(p) == IF End(p) THEN Refuse("ends early") ELSE IF T[p][1] = 1 THEN Either("decimal for integer") ELSE Refuse("not a number")
Num(p) == T[p][1] \in {0, 1}
Thousandths(p) == IF T[p][1] = 0 THEN 1000 * T[p][2] ELSE T[p][2]

\* the points of one portal: k more from position p
RECURSIVE Points(_, _, _)
Points(p, n, acc) ==
    IF n = 0 THEN [what |-> "ok", p |-> p, pts |-> acc]
    ELSE IF End(p) THEN Refuse("ends early")
    ELSE IF T[p][1] # 2 THEN Either("no (")
    ELSE IF End(p + 1) \/ End(p + 2) \/ End(p + 3) THEN Refuse("ends early")
    ELSE IF ~(Num(p + 1) /\ Num(p + 2) /\ Num(p + 3)) THEN (IF 4 \in {T[p + 1][1], T[p + 2][1], T[p + 3][1]} THEN Refuse("not a number") ELSE Either("no number"))
    ELSE IF End(p + 4) THEN Refuse("ends early")
    ELSE IF T[p + 4][1] # 3 THEN Either("no )")
    ELSE Points(p + 5, n - 1, acc \o <<Thousandths(p + 1), Thousandths(p + 2), Thousandths(p + 3)>>)
RECURSIVE Portals(_, _, _, _)
Portals(p, n, clusters, acc) ==
    IF n = 0 THEN [what |-> "ok", p |-> p, portals |-> acc]
    ELSE IF ~IsInt(p) THEN NotInt(p)
    ELSE IF ~IsInt(p + 1) THEN NotInt(p + 1)
    ELSE IF ~IsInt(p + 2) THEN NotInt(p + 2)
    ELSE IF T[p][2] > 64 THEN Refuse("too many points")
    ELSE IF T[p][2] < 3 THEN Refuse("too few points")
    ELSE IF T[p + 1][2] < 0 \/ T[p + 1][2] >= clusters \/ T[p + 2][2] < 0 \/ T[p + 2][2] >= clusters THEN Refuse("no such leaf")
    ELSE LET w == Points(p + 3, T[p][2], <<>>)
         IN IF w.what # "ok" THEN w
            ELSE Portals(w.p, n - 1, clusters, Append(acc, [a |-> T[p + 1][2], b |-> T[p + 2][2], pts |-> w.pts]))
\* PRT2: for each cluster its leafs, then -1
RECURSIVE Map2(_, _, _, _, _)
Map2(p, c, clusters, leafs, m) ==
    IF c = clusters
    THEN IF \E l \in 1..leafs : m[l] = -1 THEN Refuse("unmapped leaf") ELSE [what |-> "ok", p |-> p, map |-> m]
    ELSE IF ~IsInt(p) THEN NotInt(p)
    ELSE IF T[p][2] < 0 THEN Map2(p + 1, c + 1, clusters, leafs, m)
    ELSE IF T[p][2] >= leafs THEN Refuse("no such leaf")
    ELSE Map2(p + 1, c, clusters, leafs, [m EXCEPT ![T[p][2] + 1] = c])
RECURSIVE MapAM(_, _, _, _)
MapAM(p, clusters, leafs, m) ==
    IF Len(m) = leafs THEN [what |-> "ok", p |-> p, map |-> m]
    ELSE IF ~IsInt(p) THEN NotInt(p)
    ELSE IF T[p][2] < 0 \/ T[p][2] >= clusters THEN Refuse("no such cluster")
    ELSE MapAM(p + 1, clusters, leafs, Append(m, T[p][2]))
Identity(n) == [l \in 1..n |-> l - 1]
Result(cl, lf, ps, m) == [what |-> "ok", clusters |-> cl, leafs |-> lf, portals |-> ps, map |-> m]
Parse ==
    IF C.magic \notin {"PRT1", "PRT2", "PRT1-AM"} THEN Refuse("header")
    ELSE IF C.game = "q2" /\ C.magic # "PRT1" THEN Refuse("dialect without clusters of its own")
    ELSE LET n == IF C.magic = "PRT1" THEN 2 ELSE 3
             short == {x \in 1..n : ~IsInt(x)}
         IN IF short # {} THEN NotInt(CHOOSE x \in short : \A y \in short : x <= y)
            ELSE LET cl == IF C.magic = "PRT2" THEN T[2][2] ELSE T[1][2]
                     np == IF C.magic = "PRT1-AM" THEN T[2][2] ELSE T[n][2]
                     lf == IF C.magic = "PRT1" THEN cl ELSE IF C.magic = "PRT2" THEN T[1][2] ELSE T[3][2]
                 IN IF cl < 0 \/ np < 0 \/ lf < 0 THEN Refuse("negative count")
                    ELSE LET ps == Portals(n + 1, np, cl, <<>>)
                         IN IF ps.what # "ok" THEN ps
                            ELSE IF C.magic = "PRT1" THEN Result(cl, IF C.game = "q2" THEN 0 ELSE cl, ps.portals, IF C.game = "q2" THEN <<>> ELSE Identity(cl))
                            ELSE LET m == IF C.magic = "PRT2" THEN Map2(ps.p, 0, cl, lf, [l \in 1..lf |-> -1]) ELSE MapAM(ps.p, cl, lf, <<>>)
                                 IN IF cl = lf /\ (m.what # "ok" \/ m.map # Identity(cl)) THEN Either("one leaf per cluster: the mapping says nothing new")
                                    ELSE IF m.what # "ok" THEN m ELSE Result(cl, lf, ps.portals, m.map)

Nothing == [what |-> "none"]
Init == ci = 1 /\ i = 1 /\ verdict = Nothing
Next == IF verdict.what = "none" THEN verdict' = Parse /\ UNCHANGED <<ci, i>>
        ELSE /\ verdict' = Nothing
             /\ IF i < Len(Blocks[ci]) THEN i' = i + 1 /\ ci' = ci ELSE ci < Len(Blocks) /\ ci' = ci + 1 /\ i' = 1
Spec == Init /\ [][Next]_<<ci, i, verdict>>

Judged == verdict.what # "none"
NoCrash == Judged => C.res.what \in {"ok", "refused"}
RefusesMalformed == Judged /\ verdict.what = "refuse" => C.res.what = "refused"
ReadsExactly == Judged /\ verdict.what = "ok" =>
    /\ C.res.what = "ok" /\ C.res.clusters = verdict.clusters /\ C.res.leafs = verdict.leafs
    /\ C.res.map = verdict.map /\ Len(C.res.portals) = Len(verdict.portals)
    /\ \A x \in 1..Len(verdict.portals) : C.res.portals[x].a = verdict.portals[x].a /\ C.res.portals[x].b = verdict.portals[x].b /\ C.res.portals[x].pts = verdict.portals[x].pts
=============================================================================
