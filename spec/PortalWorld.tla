---------------------------- MODULE PortalWorld ----------------------------
(* Worlds of clusters joined by rectangular openings, and what the           *)
(* visibility data vis wrote for them must say.                              *)
(* A case is one world with sight lines (integer end points, in eighths of a *)
(* unit) and the visibility lumps of several runs of vis on it.              *)
(* The machine first walks every line through the grid, collecting which     *)
(* clusters must see each other, then decodes the lump of each run.          *)
EXTENDS VisBits, TLC, Json, IOUtils

VARIABLES ci, phase, k, must, mustd, pmust, comp, rows, hear, pstate, bad

Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
W == Cases[ci]
NC == W.nc
NL == W.nl

\* ------------------------------------------------------------- sight lines
Abs(x) == IF x < 0 THEN -x ELSE x
CellIdx(c) == c[1] + W.n[1] * (c[2] + W.n[2] * c[3])
ClusterOf(c) == IF \E a \in 1..3 : c[a] < 0 \/ c[a] >= W.n[a] THEN -1 ELSE W.cl[CellIdx(c) + 1]
Rects(a, c) == W.op[(a - 1) * W.n[1] * W.n[2] * W.n[3] + CellIdx(c) + 1]
Others(a) == CASE a = 1 -> <<2, 3>> [] a = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Margin == W.margin
Step(P, Q, a) == IF Q[a] > P[a] THEN 1 ELSE -1
\* distance, in eighths, along axis a from P to the plane through which a line leaves cell c
Ahead(P, Q, c, a) == Abs(8 * W.grid[a][c[a] + (IF Q[a] > P[a] THEN 2 ELSE 1)] - P[a])
\* the line from P to Q leaves cell c through the face of axis a first
LeavesBy(P, Q, c, a) == /\ Ahead(P, Q, c, a) < Abs(Q[a] - P[a])
                        /\ \A b \in 1..3 \ {a} : Ahead(P, Q, c, a) * Abs(Q[b] - P[b]) < Ahead(P, Q, c, b) * Abs(Q[a] - P[a])
\* coordinate x (times |Q[a]-P[a]|, in eighths) of the point where the line crosses that face
CrossAt(P, Q, c, a, x) == P[x] * Abs(Q[a] - P[a]) + Ahead(P, Q, c, a) * (Q[x] - P[x])
InRect(P, Q, c, a, r) ==
    LET o == Others(a)  D == Abs(Q[a] - P[a])
    IN /\ CrossAt(P, Q, c, a, o[1]) >= 8 * (r.r[1] + Margin) * D /\ CrossAt(P, Q, c, a, o[1]) <= 8 * (r.r[2] - Margin) * D
       /\ CrossAt(P, Q, c, a, o[2]) >= 8 * (r.r[3] + Margin) * D /\ CrossAt(P, Q, c, a, o[2]) <= 8 * (r.r[4] - Margin) * D

\* the clusters and portals along the line: <<cl, p, cl, p, ...>>; a p of -2 marks a line that is not open
RECURSIVE Walk(_, _, _, _)
Walk(P, Q, c, acc) ==
    IF \A a \in 1..3 : Ahead(P, Q, c, a) > Abs(Q[a] - P[a]) THEN acc
    ELSE IF ~ \E a \in 1..3 : LeavesBy(P, Q, c, a) THEN Append(acc, -2)
    ELSE LET a == CHOOSE x \in 1..3 : LeavesBy(P, Q, c, x)
             d == [c EXCEPT ![a] = c[a] + Step(P, Q, a)]
             low == IF Step(P, Q, a) > 0 THEN c ELSE d
         IN IF ClusterOf(d) < 0 THEN Append(acc, -2)
            ELSE IF ClusterOf(d) = ClusterOf(c) THEN Walk(P, Q, d, acc)
            ELSE LET rs == {i \in 1..Len(Rects(a, low)) : InRect(P, Q, c, a, Rects(a, low)[i])}
                 IN IF rs = {} THEN Append(acc, -2)
                    ELSE LET q == Rects(a, low)[CHOOSE i \in rs : TRUE].p
                             \* the portal that leads out of c
                             pn == IF W.ports[q + 1][1] = ClusterOf(c) THEN 2 * q ELSE 2 * q + 1
                         IN Walk(P, Q, d, acc \o <<pn, ClusterOf(d)>>)
StartCell(P) == [a \in 1..3 |-> CHOOSE i \in 0..(W.n[a] - 1) : 8 * W.grid[a][i + 1] < P[a] /\ P[a] < 8 * W.grid[a][i + 2]]
Sight(r) == Walk(r.p, r.q, StartCell(r.p), <<ClusterOf(StartCell(r.p))>>)

\* -visdist: the least distance of a corner of one opening from the plane of the other
Opening(q) == W.open[q + 1]
PlaneOf(q) == W.grid[Opening(q).a + 1][Opening(q).c[Opening(q).a + 1] + 2]
CornerRange(q, a) == IF a = Opening(q).a + 1 THEN {PlaneOf(q)}
                     ELSE LET o == Others(Opening(q).a + 1) IN IF o[1] = a THEN {Opening(q).r[1], Opening(q).r[2]} ELSE {Opening(q).r[3], Opening(q).r[4]}
Near(q1, q2) == \E x \in CornerRange(q1, Opening(q2).a + 1) : Abs(x - PlaneOf(q2)) <= W.visdist
AllNear(s, i, j) == \A x \in i..j, y \in i..j : Near(s[2 * x] \div 2, s[2 * y] \div 2)

NSeq(s) == (Len(s) + 1) \div 2      \* clusters on the line
PairsOf(s) == {<<s[2 * i - 1], s[2 * j - 1]>> : i \in 1..NSeq(s), j \in 1..NSeq(s)}
PairsNear(s) == UNION {IF i < j /\ AllNear(s, i, j - 1) THEN {<<s[2 * i - 1], s[2 * j - 1]>>, <<s[2 * j - 1], s[2 * i - 1]>>} ELSE {} : i \in 1..NSeq(s), j \in 1..NSeq(s)}
Back(p) == IF p % 2 = 0 THEN p + 1 ELSE p - 1
PortalSees(s) == {<<s[2 * i], s[2 * j - 1]>> : <<i, j>> \in {<<x, y>> \in (1..(NSeq(s) - 1)) \X (1..NSeq(s)) : y > x}}
                 \cup {<<Back(s[2 * i]), s[2 * j - 1]>> : <<i, j>> \in {<<x, y>> \in (1..(NSeq(s) - 1)) \X (1..NSeq(s)) : y <= x}}

\* ------------------------------------------------------- clusters and leafs
Links(c) == {W.ports[i][2] : i \in {x \in 1..Len(W.ports) : W.ports[x][1] = c}} \cup {W.ports[i][1] : i \in {x \in 1..Len(W.ports) : W.ports[x][2] = c}}
RECURSIVE Flood(_, _)
Flood(S, new) == IF new = {} THEN S ELSE LET nxt == (UNION {Links(c) : c \in new}) \ S IN Flood(S \cup nxt, nxt)
LeafsOf(S) == {i \in 0..(NL - 1) : W.lc[i + 1] \in S}

\* --------------------------------------------------------------------- runs
R == W.runs[k]
NRows == IF W.q2 THEN NC ELSE NL
RowLen == RowBytes(NRows)
\* a leaf without a row (offset -1) sees nothing
RowAt(o) == IF o < 0 \/ o >= Len(R.vis) THEN <<{}, -1>> ELSE GameRow(R.vis, o + 1, 0, RowLen, {})
\* what cluster c sees, as clusters
ClusterSees(i) == IF W.q2 THEN rows[i + 1][1] ELSE {W.lc[j + 1] : j \in {x \in rows[i + 1][1] : x < NL}}
AnyLeaf(c) == IF W.q2 THEN c ELSE CHOOSE i \in 0..(NL - 1) : W.lc[i + 1] = c

\* ------------------------------------------------------------------ machine
vars == <<ci, phase, k, must, mustd, pmust, comp, rows, hear, pstate, bad>>
Init == ci = 1 /\ phase = "comp" /\ k = 0 /\ must = {} /\ mustd = {} /\ pmust = {} /\ comp = <<>> /\ rows = <<>> /\ hear = <<>> /\ pstate = <<>> /\ bad = ""
Comp == /\ phase = "comp"
        /\ IF Len(comp) < NC
           THEN /\ comp' = Append(comp, IF \E d \in 1..Len(comp) : Len(comp) \in comp[d] THEN comp[CHOOSE d \in 1..Len(comp) : Len(comp) \in comp[d]]
                                        ELSE Flood({Len(comp)}, {Len(comp)}))
                /\ UNCHANGED <<phase, k>>
           ELSE phase' = "rays" /\ k' = 1 /\ UNCHANGED comp
        /\ UNCHANGED <<ci, must, mustd, pmust, rows, hear, pstate, bad>>
Ray == /\ phase = "rays"
       /\ IF k <= Len(W.rays)
          THEN LET s == Sight(W.rays[k])
               IN IF -2 \in {s[i] : i \in 1..Len(s)} THEN bad' = "ray" /\ k' = k + 1 /\ UNCHANGED <<phase, must, mustd, pmust>>
                  ELSE /\ must' = must \cup PairsOf(s)
                       /\ mustd' = IF W.visdist > 0 THEN mustd \cup PairsNear(s) ELSE mustd
                       /\ pmust' = pmust \cup PortalSees(s)
                       /\ k' = k + 1 /\ UNCHANGED <<phase, bad>>
          ELSE phase' = "rows" /\ k' = 1 /\ UNCHANGED <<must, mustd, pmust, bad>>
       /\ UNCHANGED <<ci, comp, rows, hear, pstate>>
HasPhs == W.q2
Rows == /\ phase = "rows" /\ k <= Len(W.runs)
        /\ rows' = [i \in 1..NRows |-> RowAt(R.ofs[i])]
        /\ hear' = IF HasPhs THEN [i \in 1..NRows |-> RowAt(R.phs[i])] ELSE <<>>
        /\ phase' = IF R.state = <<>> THEN "judge" ELSE "state"
        /\ pstate' = <<>>
        /\ UNCHANGED <<ci, k, must, mustd, pmust, comp, bad>>
State == /\ phase = "state"
         /\ IF Len(pstate) < 2 * Len(W.ports)
            THEN /\ pstate' = Append(pstate, StatePortal(R.state, IF pstate = <<>> THEN 21 ELSE pstate[Len(pstate)].next, NC))
                 /\ UNCHANGED phase
            ELSE phase' = "judge" /\ UNCHANGED pstate
         /\ UNCHANGED <<ci, k, must, mustd, pmust, comp, rows, hear, bad>>
Judge == /\ phase = "judge" /\ phase' = "rows" /\ k' = k + 1
         /\ UNCHANGED <<ci, must, mustd, pmust, comp, rows, hear, pstate, bad>>
NextCase == /\ phase = "rows" /\ k > Len(W.runs) /\ ci < Len(Cases)
            /\ ci' = ci + 1 /\ phase' = "comp" /\ k' = 0 /\ must' = {} /\ mustd' = {} /\ pmust' = {} /\ comp' = <<>> /\ rows' = <<>> /\ hear' = <<>>
            /\ pstate' = <<>> /\ bad' = bad
Next == Comp \/ Ray \/ Rows \/ State \/ Judge \/ NextCase
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
\* the search must have delivered open lines only (a failure here is a failure of the check, not of vis)
RaysAreOpen == bad = ""
J == phase = "judge"
Readable == J => \A i \in 1..NRows : rows[i][2] >= 0
\* C08
Sound == J => \A p \in (IF R.vd THEN mustd ELSE must) : p[2] \in ClusterSees(AnyLeaf(p[1]))
SeesItself == J => \A i \in 0..(NRows - 1) : i \in rows[i + 1][1]
OnlyConnected == J => \A i \in 0..(NRows - 1) : ClusterSees(i) \subseteq comp[(IF W.q2 THEN i ELSE W.lc[i + 1]) + 1]
\* C11
InRange == J => \A i \in 1..NRows : \A b \in rows[i][1] : b < NRows
OneRowPerCluster == J => W.q2 \/ \A i \in 1..NL, j \in 1..NL : W.lc[i] = W.lc[j] => R.ofs[i] = R.ofs[j]
ClosedUnderClusters == J => W.q2 \/ \A i \in 1..NL : rows[i][1] = LeafsOf(ClusterSees(i - 1))
SolidHasNone == J => R.solid = <<>> \/ \A i \in 1..Len(R.solid) : R.solid[i] = -1
PortalUnion(c) == {c} \cup UNION {pstate[p + 1].vis : p \in {x \in 0..(2 * Len(W.ports) - 1) : W.ports[x \div 2 + 1][1 + (x % 2)] = c}}
RowIsUnion == J /\ R.state # <<>> => \A c \in 0..(NC - 1) : ClusterSees(AnyLeaf(c)) = PortalUnion(c)
HearIsUnion == J /\ HasPhs => \A i \in 1..NRows : hear[i][2] >= 0 /\ hear[i][1] = UNION {rows[j + 1][1] : j \in rows[i][1]}
\* what the repository's own reader makes of it: one row per cluster or per offset, and which leafs (1..) each leaf (1..) sees
KeyOf(i) == IF W.q2 THEN i - 1 ELSE R.ofs[i]
ReadAsWritten == J /\ R.read # <<>> =>
    /\ \A i \in 1..NRows : \E x \in 1..Len(R.read) : R.read[x].key = KeyOf(i) /\ {R.read[x].row[y] : y \in 1..Len(R.read[x].row)} = rows[i][1]
    /\ \A x \in 1..Len(R.read) : \E i \in 1..NRows : R.read[x].key = KeyOf(i)
LeafsSeen == J /\ R.sees # <<>> => \A i \in 1..NL : {R.sees[i][y] : y \in 1..Len(R.sees[i])} = {j \in 1..NL : W.lc[j] \in ClusterSees(IF W.q2 THEN W.lc[i] ELSE i - 1)}
\* C10
SameAsFirst == J => R.same = 0 \/ (R.vis = W.runs[R.same].vis /\ R.ofs = W.runs[R.same].ofs)
\* the state file: everything finished, nothing found outside the preliminary set (C09)
StateDone == J /\ R.state # <<>> => \A p \in 1..Len(pstate) : pstate[p].status = 2 /\ pstate[p].vis \subseteq pstate[p].might
                                                             /\ \A s \in pmust : R.vd \/ s[1] + 1 # p \/ s[2] \in pstate[p].vis
=============================================================================
