------------------------------ MODULE MapFile ------------------------------
(***************************************************************************)
(* A map source file as the tools hold it, and what may be done with it:   *)
(* converting every face's texturing to another dialect, stripping the     *)
(* extended surface information, running a script over it, writing it.     *)
(*                                                                         *)
(* Four dialects say where a texture lies on a face:                       *)
(*   "q"  QuakeEd: shift, rotation and scale on the axis plane nearest to  *)
(*        the face                                                         *)
(*   "v"  Valve 220: two explicit axes, shift and scale                    *)
(*   "e"  QuArK: the three plane points are points of the texture          *)
(*   "b"  brush primitives: a 2x3 matrix in a basis that follows from the  *)
(*        normal, in units of the texture's size                           *)
(* What they have in common is the affine map from the face's plane to     *)
(* texture coordinates, and that is fixed by its values at the three plane *)
(* points: this is what the state holds and what a conversion has to keep. *)
(*                                                                         *)
(* Points are in 1/8 unit, texture coordinates in 1/256 texel; each face   *)
(* comes with a small integer vector n along its outward normal.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Tol   \* how far, in 1/256 texel, floating point may carry a texture coordinate

Abs(x) == IF x < 0 THEN -x ELSE x
\* a / b rounded to the nearest integer, b # 0
Div(a, b) == LET x == IF b < 0 THEN -a ELSE a
                 y == Abs(b)
             IN  (2 * x + y) \div (2 * y)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

(***************************************************************************)
(* The axis plane of a face: the axis with the largest component of the    *)
(* normal; z before x before y when they tie.                              *)
(***************************************************************************)
Dom(n) == IF Abs(n[3]) >= Abs(n[1]) /\ Abs(n[3]) >= Abs(n[2]) THEN 3
          ELSE IF Abs(n[1]) >= Abs(n[2]) THEN 1 ELSE 2
\* where the texture's S and T directions lie on it
SAxis(n) == IF Dom(n) = 1 THEN 2 ELSE 1
TAxis(n) == IF Dom(n) = 3 THEN 2 ELSE 3

(***************************************************************************)
(* Texture coordinates of point p from each dialect's numbers.             *)
(***************************************************************************)
\* par = <<shift s, t in 1/64; cos, sin, and their denominator; scale s num, den; scale t num, den>>
One(s) == IF s = 0 THEN 1 ELSE s
QUV(par, n, p) ==
    LET s == p[SAxis(n)]
        t == p[TAxis(n)]
    IN  <<Div((par[3] * s + par[4] * t) * 32 * par[7], par[5] * One(par[6])) + 4 * par[1],
          Div((par[4] * s - par[3] * t) * 32 * par[9], par[5] * One(par[8])) + 4 * par[2]>>
\* par = <<axis s (3), axis t (3), their denominator, shift s, t in 1/64, scale s num, den, scale t num, den>>
VUV(par, p) ==
    <<Div(Dot(<<par[1], par[2], par[3]>>, p) * 32 * par[11], par[7] * par[10]) + 4 * par[8],
      Div(Dot(<<par[4], par[5], par[6]>>, p) * 32 * par[13], par[7] * par[12]) + 4 * par[9]>>
\* par = <<1 or 2>>: the type; k: which of the plane points
EUV(par, k) == IF k = 1 THEN <<0, 0>>
               ELSE IF (k = 3) = (par[1] = 1) THEN <<128 * 256, 0>> ELSE <<0, -128 * 256>>
\* par = <<matrix row s (3), row t (3), denominator k; h, L>>: the matrix in texels / k, h = |(n1, n2)|, L = |n|
BasisS(n) == IF n[1] = 0 /\ n[2] = 0 THEN <<0, 1, 0>> ELSE <<-n[2], n[1], 0>>                              \* times h
BasisT(n, h) == IF n[1] = 0 /\ n[2] = 0 THEN <<n[3], 0, 0>> ELSE <<n[3] * n[1], n[3] * n[2], -(h * h)>>    \* times h L
BRow(par, n, j) ==    \* gradient of coordinate j times h L k
    LET x == BasisS(n)
        y == BasisT(n, par[8])
        a == par[3 * j + 1]
        b == par[3 * j + 2]
    IN  [c \in 1..3 |-> a * x[c] * par[9] + b * y[c]]
BUV(par, n, p) ==
    LET D == par[8] * par[9] * par[7]
    IN  [j \in 1..2 |-> Div(Dot(BRow(par, n, j - 1), p) * 32, D) + Div(par[3 * j] * 256, par[7])]
BOK(par, n) == LET h2 == n[1] * n[1] + n[2] * n[2]
               IN  /\ IF h2 = 0 THEN par[8] = 1 ELSE par[8] * par[8] = h2
                   /\ par[9] * par[9] = h2 + n[3] * n[3]

UV(f) == [k \in 1..3 |->
            CASE f.d = "q" -> QUV(f.par, f.n, f.p[k])
              [] f.d = "v" -> VUV(f.par, f.p[k])
              [] f.d = "e" -> EUV(f.par, k)
              [] f.d = "b" -> BUV(f.par, f.n, f.p[k])]

(***************************************************************************)
(* QuakeEd texturing can rotate, mirror and stretch along the texture's    *)
(* axes, but not shear: on the axis plane, the two gradients are           *)
(* perpendicular. A function on the face whose gradient in space is W has  *)
(* on the axis plane the gradient W - W_d/n_d n.                           *)
(***************************************************************************)
Flat(W, n) == LET d == Dom(n)
              IN  <<W[SAxis(n)] * n[d] - W[d] * n[SAxis(n)], W[TAxis(n)] * n[d] - W[d] * n[TAxis(n)]>>
Square(a, b) == a[1] * b[1] + a[2] * b[2] = 0
\* QuArK's points may be square to each other but for a trifle, which may be counted as square
MaxOf(a, b) == IF Abs(a) > Abs(b) THEN Abs(a) ELSE Abs(b)
Nearly(f) == /\ f.d = "e"
             /\ LET a == Sub(f.p[2], f.p[1])
                    b == Sub(f.p[3], f.p[1])
                    s == SAxis(f.n)
                    t == TAxis(f.n)
                IN  Abs(a[s] * b[s] + a[t] * b[t]) <= (MaxOf(a[s], a[t]) * MaxOf(b[s], b[t])) \div 100
\* gradients on the axis plane, up to a factor each, and those factors: <<X, sn, sd, Y, tn, td>> for X sn / sd and Y tn / td
Gradients(f) ==
    CASE f.d = "v" -> <<Flat(<<f.par[1], f.par[2], f.par[3]>>, f.n), f.par[11], f.par[10], Flat(<<f.par[4], f.par[5], f.par[6]>>, f.n), f.par[13], f.par[12]>>
      [] f.d = "b" -> <<Flat(BRow(f.par, f.n, 0), f.n), 1, 1, Flat(BRow(f.par, f.n, 1), f.n), 1, 1>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
\* what to take of the second coordinate from the first to make it fit: X.Y / Y.Y, as a reduced fraction; <<0, 0>>: not worked out
Shear(f) ==
    IF f.d # "v" THEN <<0, 0>>
    ELSE LET g == Gradients(f)
             xy == g[1][1] * g[4][1] + g[1][2] * g[4][2]
             yy == g[4][1] * g[4][1] + g[4][2] * g[4][2]
             xf == g[2] * g[6]
             yf == g[5] * g[3]
         IN  IF xy = 0 \/ yy = 0 \/ Abs(xy) > 2000000000 \div Abs(xf) \/ yy > 2000000000 \div Abs(yf) THEN <<0, 0>>
             ELSE LET k == Gcd(xy * xf, yy * yf) IN <<(xy * xf) \div k, (yy * yf) \div k>>
Unsheared(f) ==
    CASE f.d = "q" -> TRUE
      [] f.d \in {"v", "b"} -> Square(Gradients(f)[1], Gradients(f)[4])
      [] f.d = "e" -> LET a == Sub(f.p[2], f.p[1])
                          b == Sub(f.p[3], f.p[1])
                      IN  a[SAxis(f.n)] * b[SAxis(f.n)] + a[TAxis(f.n)] * b[TAxis(f.n)] = 0

(***************************************************************************)
(* Reading. A face whose points are in line is dropped, and so is one in   *)
(* the plane of an earlier face of its brush (either side of it); a brush without faces is     *)
(* dropped; a key given twice keeps its place and takes the last value.    *)
(***************************************************************************)
RECURSIVE SetKeys(_, _, _)
SetKeys(acc, kv, i) ==
    IF i > Len(kv) THEN acc
    ELSE LET at == {j \in DOMAIN acc : acc[j][1] = kv[i][1]}
         IN  SetKeys(IF at = {} THEN Append(acc, kv[i])
                     ELSE LET j == CHOOSE j \in at : TRUE IN [acc EXCEPT ![j] = kv[i]], kv, i + 1)
Flatless(f) == Cross(Sub(f.p[1], f.p[2]), Sub(f.p[3], f.p[2])) = <<0, 0, 0>>
SamePlane(f, g) == Cross(f.n, g.n) = <<0, 0, 0>> /\ Dot(f.n, Sub(f.p[1], g.p[1])) = 0     \* either way round
RECURSIVE KeepFaces(_, _, _)
KeepFaces(acc, fs, i) ==
    IF i > Len(fs) THEN acc
    ELSE KeepFaces(IF Flatless(fs[i]) \/ \E j \in DOMAIN acc : SamePlane(acc[j], fs[i]) THEN acc ELSE Append(acc, fs[i]), fs, i + 1)
\* `free`: the texture's place is nobody's business (invisible faces)
Loaded(f) == [p |-> f.p, n |-> f.n, t |-> f.t, d |-> f.d, par |-> f.par, uv |-> UV(f), shown |-> UV(f), square |-> Unsheared(f), nearly |-> Nearly(f), shear |-> Shear(f), red |-> <<0, 0>>, i |-> f.i, free |-> f.free]
RECURSIVE KeepBrushes(_, _, _)
KeepBrushes(acc, bs, i) ==
    IF i > Len(bs) THEN acc
    ELSE LET fs == KeepFaces(<<>>, bs[i], 1)
         IN  KeepBrushes(IF fs = <<>> THEN acc ELSE Append(acc, [k \in DOMAIN fs |-> Loaded(fs[k])]), bs, i + 1)
Load(src) == [e \in DOMAIN src |-> [keys |-> SetKeys(<<>>, src[e].keys, 1), brushes |-> KeepBrushes(<<>>, src[e].brushes, 1)]]
\* the source is well formed
SourceOK(src) ==
    \A e \in DOMAIN src : \A b \in DOMAIN src[e].brushes : \A k \in DOMAIN src[e].brushes[b] :
        LET f == src[e].brushes[b][k]
            N == Cross(Sub(f.p[1], f.p[2]), Sub(f.p[3], f.p[2]))
        IN  \/ Flatless(f)
            \/ /\ Dot(f.n, Sub(f.p[1], f.p[2])) = 0 /\ Dot(f.n, Sub(f.p[3], f.p[2])) = 0
               /\ f.n[Dom(f.n)] * (IF N[Dom(f.n)] > 0 THEN 1 ELSE -1) > 0 /\ N[Dom(f.n)] # 0
               /\ (f.d = "b" => BOK(f.par, f.n))

\* all faces of a map, changed one by one
Each(m, F(_)) == [e \in DOMAIN m |-> [m[e] EXCEPT !.brushes = [b \in DOMAIN m[e].brushes |-> [k \in DOMAIN m[e].brushes[b] |-> F(m[e].brushes[b][k])]]]]

(***************************************************************************)
(* Texture coordinates after a conversion. Floating point may move them by *)
(* Tol; QuakeEd shifts are reduced by whole textures when the texture's    *)
(* size is known, `size` = <<w, h>> or <<0, 0>>.                           *)
(***************************************************************************)
Near(a, b, tol) == Abs(a - b) <= tol
Turns(x, size) == IF size = 0 THEN 0 ELSE Div(x, size * 256)
Moved(uv, obs, size) ==
    LET du == Turns(obs[1][1] - uv[1][1], size[1])
        dv == Turns(obs[1][2] - uv[1][2], size[2])
    IN  [k \in 1..3 |-> <<uv[k][1] + du * size[1] * 256, uv[k][2] + dv * size[2] * 256>>]
SamePlace(uv, obs, tol) == \A k \in 1..3 : Near(uv[k][1], obs[k][1], tol) /\ Near(uv[k][2], obs[k][2], tol)

\* a b / c without leaving 32 bits, for a, c of up to 10^5 and b of up to 10^7
MulDiv(a, b, c) == LET x == IF c < 0 THEN -a ELSE a
                       y == Abs(c)
                       hi == x * (b \div 1024)
                   IN  (hi \div y) * 1024 + Div((hi % y) * 1024 + x * (b % 1024), y)
\* A sheared texture in the QuakeEd dialect: it stays where it is at the first plane point, its second coordinate stays
\* everywhere, and the first is made square to that
Straightened(f, obs, size) ==
    LET u == Moved(f.uv, obs, size)
    IN  [k \in 1..3 |-> IF f.shear = <<0, 0>> \/ Abs(f.shear[1]) > 100000 \/ Abs(f.shear[2]) > 100000 \/ Abs(f.shear[1]) > 8 * Abs(f.shear[2])
                        THEN <<IF k = 1 THEN u[k][1] ELSE obs[k][1], u[k][2]>>
                        ELSE <<u[k][1] - MulDiv(f.shear[1], u[k][2] - u[1][2], f.shear[2]), u[k][2]>>]
\* A tool holds the place itself, `uv`, and writes what the dialect makes of it, `shown`: converting to another dialect and back
\* within one run of maputil loses nothing. A new run, and a script that hands its map back, start from what is written.
\* obs = the coordinates found afterwards, same = "already in that dialect is left alone"
Converted(f, d, size, obs, same) ==
    IF same /\ f.d = d THEN f
    ELSE [f EXCEPT !.d = d, !.par = <<>>, !.red = IF d = "q" THEN size ELSE <<0, 0>>,      \* red: the shift is less than this
                   !.shown = IF f.free THEN obs
                             ELSE IF d = "q" /\ ~f.square THEN Straightened(f, obs, size)
                             ELSE IF d = "q" THEN Moved(f.uv, obs, size) ELSE f.uv]
Settled(m) == Each(m, LAMBDA f : [f EXCEPT !.uv = f.shown, !.square = f.square \/ f.d = "q"])

(***************************************************************************)
(* Operations. In the two tools:                                           *)
(*   maputil  keeps a face that is already in the dialect asked for, and   *)
(*            refuses what it cannot write: QuArK faces from others, and   *)
(*            brush primitives                                             *)
(*   qbsp     writes every face anew                                       *)
(***************************************************************************)
HasFace(m, P(_)) == \E e \in DOMAIN m : \E b \in DOMAIN m[e].brushes : \E k \in DOMAIN m[e].brushes[b] : P(m[e].brushes[b][k])
Refuses(m, d) == HasFace(m, LAMBDA f : (d = "e" /\ f.d # "e") \/ d = "b")
\* obs[e].brushes[b][k].uv: what is found afterwards
Convert(m, d, size(_), obs, same) ==
    [e \in DOMAIN m |-> [m[e] EXCEPT !.brushes = [b \in DOMAIN m[e].brushes |-> [k \in DOMAIN m[e].brushes[b] |->
        LET f == m[e].brushes[b][k]
            g == Converted(f, d, size(f.t), obs[e].brushes[b][k].uv, same)
        IN  IF d = "b" /\ f.i = <<>> THEN [g EXCEPT !.i = <<"0", "0", "0">>] ELSE g]]]]
Strip(m) == Each(m, LAMBDA f : [f EXCEPT !.i = <<>>])
\* what scripts do
Rename(m, a, b) == Each(m, LAMBDA f : IF f.t = a THEN [f EXCEPT !.t = b] ELSE f)
SetInfo(m, i) == Each(m, LAMBDA f : [f EXCEPT !.i = i])
AddKey(m, e, kv) == [m EXCEPT ![e].keys = SetKeys(@, <<kv>>, 1)]
Swap(m, e, g) == [m EXCEPT ![e] = m[g], ![g] = m[e]]
DropBrush(m, e, b) == [m EXCEPT ![e].brushes = SubSeq(@, 1, b - 1) \o SubSeq(@, b + 1, Len(@))]
\* axes that (nearly) fall together when seen along the face have no place on it that a conversion could keep
Degenerate(par, n) == LET a == Cross(<<par[1], par[2], par[3]>>, <<par[4], par[5], par[6]>>)
                      IN  Dot(a, n) * Dot(a, n) <= (Dot(a, a) * Dot(n, n)) \div 100
Retexture(m, par) == Each(m, LAMBDA f : LET g == [f EXCEPT !.d = "v", !.par = par]
                                        IN  [g EXCEPT !.uv = UV(g), !.shown = UV(g), !.square = Unsheared(g), !.nearly = FALSE, !.shear = Shear(g), !.red = <<0, 0>>, !.free = f.free \/ Degenerate(par, f.n)])
\* every plane point moved; QuArK textures move along, the others stay where they are in space
MoveAll(m, by) == Each(m, LAMBDA f :
    LET g == [f EXCEPT !.p = [k \in 1..3 |-> <<f.p[k][1] + by[1], f.p[k][2] + by[2], f.p[k][3] + by[3]>>]]
    IN  IF f.par = <<>> THEN g ELSE [g EXCEPT !.uv = UV(g), !.shown = UV(g)])

\* two observations
SameShape(m, obs) ==
    /\ Len(m) = Len(obs)
    /\ \A e \in DOMAIN m : /\ Len(m[e].brushes) = Len(obs[e].brushes)
                           /\ \A b \in DOMAIN m[e].brushes : Len(m[e].brushes[b]) = Len(obs[e].brushes[b])
SameFaces(m, obs, Q(_, _)) ==
    \A e \in DOMAIN m : \A b \in DOMAIN m[e].brushes : \A k \in DOMAIN m[e].brushes[b] : Q(m[e].brushes[b][k], obs[e].brushes[b][k])

(***************************************************************************)
(* The outline of a box's face, as create_winding gives it: its corners,   *)
(* each once, clockwise seen from outside.                                 *)
(***************************************************************************)
IsBox(br) == /\ Len(br) = 6
             /\ \A k \in 1..6 : Cardinality({a \in 1..3 : br[k].n[a] # 0}) = 1
             /\ \A a \in 1..3, s \in {-1, 1} : \E k \in 1..6 : br[k].n[a] * s > 0
Side(br, a, s) == LET k == CHOOSE k \in 1..6 : br[k].n[a] * s > 0 IN br[k].p[1][a]
Corners(br, f) == {c \in {Side(br, 1, -1), Side(br, 1, 1)} \X {Side(br, 2, -1), Side(br, 2, 1)} \X {Side(br, 3, -1), Side(br, 3, 1)} :
                    Dot(f.n, Sub(c, f.p[1])) = 0}
Outline(br, f, w) ==
    /\ Len(w) = 4
    /\ {w[k] : k \in 1..4} = Corners(br, f)
    /\ \A k \in 1..4 : Dot(f.n, Cross(Sub(w[(k % 4) + 1], w[k]), Sub(w[((k + 1) % 4) + 1], w[(k % 4) + 1]))) < 0
\* entities for which a query `entity[key] == value` holds
Value(ent, key) == LET at == {j \in DOMAIN ent.keys : ent.keys[j][1] = key} IN IF at = {} THEN "" ELSE ent.keys[CHOOSE j \in at : TRUE][2]
=============================================================================
