----------------------------- MODULE BspScale -----------------------------
(* bsputil --scale, --findleaf and --findfaces.  Two readings of a file,    *)
(* before and after scaling by s[a]/4 along each axis, and points of the    *)
(* old world: everything that depends on where a point lies must say the    *)
(* same of the scaled point.  Lengths are in sixteenths of a unit, normals  *)
(* in 1/1024, texture vectors in 1/256.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE ci
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Cases[ci]
P == C.before
Q == C.after
Init == ci = 1
Next == ci < Len(Cases) /\ ci' = ci + 1
Spec == Init /\ [][Next]_ci
Scaled == C.kind = "scale"
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, e) == Abs(x - y) <= e
Odd == (IF C.s[1] < 0 THEN 1 ELSE 0) + (IF C.s[2] < 0 THEN 1 ELSE 0) + (IF C.s[3] < 0 THEN 1 ELSE 0) \in {1, 3}
At(x) == [a \in 1..3 |-> (x[a] * C.s[a]) \div 4]
Verts == Scaled => Len(P.verts) = Len(Q.verts) /\ \A k \in DOMAIN P.verts : \A a \in 1..3 : Near(4 * Q.verts[k][a], C.s[a] * P.verts[k][a], 4)
\* faces: the same corners, the other way round in a mirror, on the same side of their plane
Turn(s) == <<s[1]>> \o Reverse(Tail(s))
Rotations(s) == {[k \in DOMAIN s |-> s[((k + r - 2) % Len(s)) + 1]] : r \in 1..Len(s)}
Side(B, p, x) == LET n == B.planes[p + 1].n IN n[1] * x[1] + n[2] * x[2] + n[3] * x[3] - 1024 * B.planes[p + 1].d
Faces == Scaled => /\ Len(P.faces) = Len(Q.faces)
                   /\ \A k \in DOMAIN P.faces : LET f == P.faces[k] g == Q.faces[k] IN
                        /\ (IF Odd THEN Turn(f.v) ELSE f.v) \in Rotations(g.v)
                        /\ g.closed
                        /\ \A j \in DOMAIN C.points : (Side(P, f.p, C.points[j]) > 0) = (Side(Q, g.p, At(C.points[j])) > 0) <=> (f.s = g.s)
                        /\ f.rest = g.rest
\* a point of a face has the same place in its texture
Tex(B, t, x) == [r \in 1..2 |-> B.tex[t + 1].v[r][1] * x[1] + B.tex[t + 1].v[r][2] * x[2] + B.tex[t + 1].v[r][3] * x[3]]
Texture == Scaled => \A k \in DOMAIN P.tex : \A r \in 1..2 : P.tex[k].o[r] = Q.tex[k].o[r] /\ \A a \in 1..3 : Near(Q.tex[k].v[r][a] * C.s[a], P.tex[k].v[r][a] * 4, Abs(C.s[a]))
Decoupled == Scaled => Len(P.dec) = Len(Q.dec) /\ \A k \in DOMAIN P.dec :
    /\ P.dec[k].rest = Q.dec[k].rest
    /\ \A r \in 1..2 : P.dec[k].o[r] = Q.dec[k].o[r] /\ \A a \in 1..3 : Near(Q.dec[k].v[r][a] * C.s[a], P.dec[k].v[r][a] * 4, Abs(C.s[a]))
Grid == (Scaled /\ P.grid.on /\ \A a \in 1..3 : C.s[a] > 0) =>
    /\ Q.grid.on /\ P.grid.rest = Q.grid.rest
    /\ \A a \in 1..3 : Near(4 * Q.grid.dist[a], C.s[a] * P.grid.dist[a], 4)
    /\ \A a \in 1..3 : Near(4 * Q.grid.mins[a], C.s[a] * P.grid.mins[a], 4)
\* the trees
RECURSIVE Walk(_, _, _, _)
Walk(B, nodes, k, x) == IF k < 0 THEN k ELSE Walk(B, nodes, IF Side(B, nodes[k + 1].p, x) >= 0 THEN nodes[k + 1].c[1] ELSE nodes[k + 1].c[2], x)
Nodes(B, hull) == IF hull = 0 THEN B.nodes ELSE B.clip
Trees == Scaled => \A t \in DOMAIN P.trees : \A j \in DOMAIN C.points :
    Walk(P, Nodes(P, P.trees[t][1]), P.trees[t][2], C.points[j]) = Walk(Q, Nodes(Q, Q.trees[t][1]), Q.trees[t][2], At(C.points[j]))
\* planes of trees along an axis face forwards
Trunks == Scaled => \A hull \in 0..1 : \A k \in DOMAIN Nodes(Q, hull) : LET p == Q.planes[Nodes(Q, hull)[k].p + 1] IN p.t <= 2 => p.n[p.t + 1] > 0
Sides == Scaled => \A k \in DOMAIN P.sides : \A j \in DOMAIN C.points : (Side(P, P.sides[k], C.points[j]) > 0) = (Side(Q, Q.sides[k], At(C.points[j])) > 0)
\* boxes: the smallest box of whole units around the scaled one
Lo(a, b) == LET x == b.lo[a] * C.s[a] y == b.hi[a] * C.s[a] IN IF x < y THEN x ELSE y
Hi(a, b) == LET x == b.lo[a] * C.s[a] y == b.hi[a] * C.s[a] IN IF x > y THEN x ELSE y
Boxes(S, T, whole) == Len(S) = Len(T) /\ \A k \in DOMAIN S : \A a \in 1..3 :
    /\ T[k].lo[a] * 4 <= Lo(a, S[k]) /\ Hi(a, S[k]) <= T[k].hi[a] * 4
    /\ Lo(a, S[k]) - T[k].lo[a] * 4 < (IF whole THEN 64 ELSE 4) /\ T[k].hi[a] * 4 - Hi(a, S[k]) < (IF whole THEN 64 ELSE 4)
BoxesOk == Scaled => Boxes(P.leafs, Q.leafs, TRUE) /\ Boxes(P.nodes, Q.nodes, TRUE) /\ Boxes(P.models, Q.models, FALSE)
\* entities
Key(k, v, w) == CASE k = "origin" -> \A a \in 1..3 : Near(4 * w[a], C.s[a] * v[a], 8)
                  [] k = "height" -> Near(4 * w, C.s[3] * v, 8)
                  [] k = "lip" -> Near(4 * (w - 2 * 16), C.s[3] * (v - 2 * 16), 8)
                  [] OTHER -> v = w
Entities == Scaled => Len(P.ents) = Len(Q.ents) /\ \A k \in DOMAIN P.ents :
    /\ Len(P.ents[k]) = Len(Q.ents[k])
    /\ \A j \in DOMAIN P.ents[k] : P.ents[k][j][1] = Q.ents[k][j][1] /\ Key(P.ents[k][j][1], P.ents[k][j][2], Q.ents[k][j][2])
Rest == Scaled => P.rest = Q.rest
\* ---- questions
Leaf == C.kind = "leaf" => \A j \in DOMAIN C.points : C.answers[j] = -1 - Walk(P, P.nodes, P.trees[1][2], C.points[j])
\* a face is named when one contains the point and looks that way
Ax(n) == CHOOSE a \in 1..3 : n[a] # 0
Looks(f, n) == LET m == P.planes[f.p + 1].n g == IF f.s = 1 THEN -1 ELSE 1 IN \A a \in 1..3 : g * m[a] = n[a]
Corner(f, k) == P.verts[f.v[((k - 1) % Len(f.v)) + 1] + 1]
On(f, n, x) == /\ Looks(f, n) /\ Side(P, f.p, x) = 0
               /\ LET a == Ax(n) u == (a % 3) + 1 v == (u % 3) + 1
                      o == IF n[a] > 0 THEN 1 ELSE -1
                      T(k) == ((Corner(f, k + 1)[u] - Corner(f, k)[u]) \div 4) * ((x[v] - Corner(f, k)[v]) \div 4) - ((Corner(f, k + 1)[v] - Corner(f, k)[v]) \div 4) * ((x[u] - Corner(f, k)[u]) \div 4)
                  IN \A k \in 1..Len(f.v) : o * T(k) <= 0
Found(m, n, x) == {k \in (m.ff + 1)..(m.ff + m.nf) : On(P.faces[k], n, x)}
FacesAt == C.kind = "faces" => \A j \in DOMAIN C.points : \A m \in DOMAIN P.models :
    LET F == Found(P.models[m], C.normals[j], C.points[j])
        A == {k \in DOMAIN C.answers[j] : C.answers[j][k][1] = m - 1}
    IN IF F = {} THEN A = {} ELSE Cardinality(A) = 1 /\ \A k \in A : \E f \in F : C.answers[j][k] = <<m - 1, f - 1, P.faces[f].tex, P.faces[f].ti>>
=============================================================================
