----------------------------- MODULE MapFileMC -----------------------------
(* What the dialects can express, over all small gradients and a family of   *)
(* planes; and all sequences of operations on a small map.                   *)
EXTENDS MapFile
CONSTANTS R,      \* gradients have components in -R..R
          Depth   \* length of the sequences

Normals == {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<1, 1, 0>>, <<1, -1, 0>>, <<0, 1, -1>>,
            <<1, 1, 1>>, <<-1, 2, 1>>, <<3, 4, 0>>, <<0, -3, 4>>, <<2, 1, -3>>}
Span(n) == LET c == {v \in {<<0, n[3], -n[2]>>, <<-n[3], 0, n[1]>>, <<n[2], -n[1], 0>>} : v # <<0, 0, 0>>}
               a == CHOOSE v \in c : TRUE
           IN  <<a, Cross(n, a)>>
Point(n, a, b) == LET s == Span(n) IN <<a * s[1][1] + b * s[2][1], a * s[1][2] + b * s[2][2], a * s[1][3] + b * s[2][3]>>
Plane(n) == {Point(n, a, b) : a \in -1..1, b \in -1..1}
ST(n, p) == <<p[SAxis(n)], p[TAxis(n)]>>
D2(a, b) == a[1] * b[1] + a[2] * b[2]
Grad == {<<a, b, c>> : a \in -R..R, b \in -R..R, c \in -R..R} \ {<<0, 0, 0>>}

\* a gradient in space and its flat one are the same function on the face
FlatIsSame(n) == \A W \in Grad : \A p \in Plane(n) : Dot(W, p) * n[Dom(n)] = D2(Flat(W, n), ST(n, p))
\* QuakeEd's two gradients: (cos, sin) / scale_s and (sin, -cos) / scale_t. Two gradients are of that form if and only if they are
\* perpendicular, so being sheared is all that stands between a dialect and QuakeEd
Perp(r) == <<r[2], -r[1]>>
QuakeForm(r, t) == LET l == D2(t, Perp(r))      \* t = l / |r|^2 Perp(r)
                   IN  /\ t[1] * D2(r, r) = l * r[2] /\ t[2] * D2(r, r) = -(l * r[1])
Expresses(n) == \A W \in Grad : LET r == Flat(W, n) IN
                    r # <<0, 0>> => \A V \in Grad : LET t == Flat(V, n) IN Square(r, t) <=> QuakeForm(r, t)
\* the brush primitive basis lies in the face, is perpendicular, and spans it
BasisOK(n, h, L) == LET x == BasisS(n)
                        y == BasisT(n, h)
                    IN  /\ Dot(x, n) = 0 /\ Dot(y, n) = 0 /\ Dot(x, y) = 0
                        /\ Dot(x, x) = h * h /\ Dot(y, y) = h * h * L * L
Rational == {<<n, h, L>> \in Normals \X {1, 3, 4, 5} \X {1, 3, 4, 5} : BOK(<<0, 0, 0, 0, 0, 0, 1, h, L>>, n)}
\* three points settle an affine function on the face
Settles(n) == \A W \in Grad : (\A k \in 1..2 : Dot(W, Span(n)[k]) = 0) => \A p \in Plane(n) : Dot(W, p) = 0

ASSUME \A n \in Normals : FlatIsSame(n) /\ Expresses(n) /\ Settles(n)
ASSUME Cardinality({x[1] : x \in Rational}) >= 8 /\ \A x \in Rational : BasisOK(x[1], x[2], x[3])

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
VARIABLES m, lost, n
vars == <<m, lost, n>>
Face(pts, nn, t, d, par, i) == [p |-> pts, n |-> nn, t |-> t, d |-> d, par |-> par, i |-> i, free |-> FALSE]
Top == <<<<0, 0, 64>>, <<0, 64, 64>>, <<64, 0, 64>>>>
Wall == <<<<64, 0, 0>>, <<64, 0, 64>>, <<64, 64, 64>>>>
Source == << [keys |-> <<<<"classname", "worldspawn">>, <<"k", "1">>, <<"k", "2">>>>,
              brushes |-> << <<Face(Top, <<0, 0, 1>>, "a", "q", <<64, -64, 0, 1, 1, 1, 1, 2, 1>>, <<>>),
                               Face(Wall, <<1, 0, 0>>, "b", "v", <<0, 1, 1, 0, 0, -1, 1, 0, 32, 1, 1, 1, 1>>, <<"1", "0", "0">>),
                               Face(Wall, <<1, 0, 0>>, "dup", "q", <<0, 0, 1, 0, 1, 1, 1, 1, 1>>, <<>>)>>,
                             <<Face(Wall, <<1, 0, 0>>, "a", "e", <<1>>, <<>>)>> >>],
             [keys |-> <<<<"classname", "light">>>>, brushes |-> << >>] >>
Size(t) == IF t = "a" THEN <<64, 32>> ELSE <<0, 0>>

Init == m = Load(Source) /\ lost = {} /\ n = 0
Sites(M) == {<<e, b, k>> \in (1..2) \X (1..2) \X (1..2) : e \in DOMAIN M /\ b \in DOMAIN M[e].brushes /\ k \in DOMAIN M[e].brushes[b]}
\* what a conversion may leave behind: the place itself, one texture further, or (when it cannot be expressed) anything
Seen(f, d, t) == IF d = "q" /\ ~f.square THEN [k \in 1..3 |-> <<7 * k, k>>]
                 ELSE [k \in 1..3 |-> <<f.uv[k][1] + t * 256 * Size(f.t)[1], f.uv[k][2] - t * 256 * Size(f.t)[2] + 1>>]
DoConvert(d, t, keep) ==
    LET obs == [e \in DOMAIN m |-> [brushes |-> [b \in DOMAIN m[e].brushes |-> [k \in DOMAIN m[e].brushes[b] |-> [uv |-> Seen(m[e].brushes[b][k], d, t)]]]]]
    IN  /\ m' = Convert(m, d, Size, obs, keep)
        /\ UNCHANGED lost
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E d \in {"q", "v", "b"}, t \in {0, 1, -1}, keep \in BOOLEAN : (keep => ~Refuses(m, d)) /\ DoConvert(d, IF d = "q" THEN t ELSE 0, keep)
           \/ m' = Settled(m) /\ lost' = lost \cup {s \in Sites(m) : LET f == m[s[1]].brushes[s[2]][s[3]] IN f.d = "q" /\ ~f.square}
           \/ m' = Strip(m) /\ UNCHANGED lost
           \/ m' = Rename(m, "b", "c") /\ UNCHANGED lost
           \/ m' = AddKey(m, 2, <<"k", "3">>) /\ UNCHANGED lost
Spec == Init /\ [][Next]_vars

O == Load(Source)
\* whatever is done, nothing but what was asked for changes
Geometry == \A s \in Sites(O) : m[s[1]].brushes[s[2]][s[3]].p = O[s[1]].brushes[s[2]][s[3]].p
Shape == SameShape(O, m) /\ \A e \in DOMAIN O : \A j \in DOMAIN O[e].keys : m[e].keys[j] = O[e].keys[j]
Loads == Len(O[1].keys) = 2 /\ O[1].keys[2] = <<"k", "2">> /\ Len(O[1].brushes[1]) = 2
\* a texture is held at its place, up to whole textures, until it is written in a dialect that cannot express it and read again
Whole(t, a, b) == \A k \in 1..3 : LET du == a[k][1] - b[k][1]
                                      dv == a[k][2] - b[k][2]
                                  IN  IF t = "a" THEN du % (256 * 64) = 0 /\ dv % (256 * 32) = 0 ELSE du = 0 /\ dv = 0
Stays == \A s \in Sites(O) \ lost :
    LET f == m[s[1]].brushes[s[2]][s[3]]
    IN  /\ Whole(f.t, f.uv, O[s[1]].brushes[s[2]][s[3]].uv)
        /\ (f.d # "q" \/ f.square) => Whole(f.t, f.shown, f.uv)
\* the map can always be brought to any dialect but QuArK's, and only a sheared texture is ever lost
OnlySheared == \A s \in lost : ~O[s[1]].brushes[s[2]][s[3]].square
=============================================================================
