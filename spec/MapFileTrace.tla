---------------------------- MODULE MapFileTrace ----------------------------
(* Runs of maputil and of qbsp -convert over generated maps: each operation  *)
(* with the map that was written after it, measured by an independent reader. *)
EXTENDS MapFile, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES ci, at, m
vars == <<ci, at, m>>

C == Cases[ci]
Steps == Cases[ci].steps
S == Steps[at]
Size(t) == LET js == {j \in DOMAIN Cases[ci].sizes : Cases[ci].sizes[j][1] = t}
           IN  IF js = {} THEN <<0, 0>> ELSE LET j == CHOOSE j \in js : TRUE IN <<Cases[ci].sizes[j][2], Cases[ci].sizes[j][3]>>
NoSize(t) == <<0, 0>>

Init == /\ ci \in DOMAIN Cases
        /\ at = 1
        /\ m = Load(Cases[ci].src)

After(M, s) ==
    CASE s.op = "save" -> M
      [] s.op = "convert" -> IF SameShape(M, s.out)
                             THEN IF s.game THEN Convert(M, s.arg, Size, s.out, s.keep) ELSE Convert(M, s.arg, NoSize, s.out, s.keep)
                             ELSE M
      [] s.op = "strip" -> Strip(M)
      [] s.op = "rename" -> Rename(M, s.arg, s.arg2)
      [] s.op = "info" -> SetInfo(M, s.arg)
      [] s.op = "key" -> AddKey(M, s.e, s.arg)
      [] s.op = "swap" -> Swap(M, s.e, s.f)
      [] s.op = "drop" -> DropBrush(M, s.e, s.b)
      [] s.op = "retexture" -> Retexture(M, s.arg)
      [] s.op = "move" -> MoveAll(M, s.arg)
      [] OTHER -> M

Next == /\ at <= Len(Steps)
        /\ ci' = ci
        /\ m' = LET s == Steps[at] IN After(IF s.fresh THEN Settled(m) ELSE m, s)
        /\ at' = at + 1
Spec == Init /\ [][Next]_vars

\* the step just taken
P == Steps[at - 1]
Wrote == at > 1 /\ P.op \notin {"refused", "query", "winding"}
Source == at = 1 => SourceOK(Cases[ci].src)
\* entities, keys, brushes
Shape == Wrote => SameShape(m, P.out)
Keys == Wrote /\ Len(m) = Len(P.out) => \A e \in DOMAIN m : m[e].keys = P.out[e].keys
Both(Q(_, _)) == Wrote /\ SameShape(m, P.out) => SameFaces(m, P.out, Q)
Planes == Both(LAMBDA f, o : f.p = o.p)
Names == Both(LAMBDA f, o : f.t = o.t)
Infos == Both(LAMBDA f, o : f.i = o.i)
Dialect == Both(LAMBDA f, o : f.d = o.d)
Place == Both(LAMBDA f, o : f.free \/ SamePlace(f.shown, o.uv, IF f.nearly THEN 8 * 256 ELSE Tol))
Reduced == Both(LAMBDA f, o : \A j \in 1..2 : f.red[1] = 0 \/ f.red[2] = 0 \/ Abs(o.sh[j]) <= f.red[j] * 256)
\* what cannot be expressed is refused, everything else is done
Refusal == at > 1 => (P.op = "refused") = (P.op = "refused" /\ Refuses(m, P.arg))
Matched == at > 1 /\ P.op = "query" =>
    P.out = [j \in 1..Cardinality({e \in DOMAIN m : Value(m[e], P.arg) = P.arg2}) |->
                LET sel == {e \in DOMAIN m : Value(m[e], P.arg) = P.arg2}
                    e == CHOOSE e \in sel : Cardinality({x \in sel : x < e}) = j - 1
                IN  Value(m[e], "classname")]
Windings == at > 1 /\ P.op = "winding" =>
    \A e \in DOMAIN m : \A b \in DOMAIN m[e].brushes : IsBox(m[e].brushes[b]) =>
        /\ Len(P.out[e][b]) = 6
        /\ \A k \in 1..6 : Outline(m[e].brushes[b], m[e].brushes[b][k], P.out[e][b][k])
=============================================================================
