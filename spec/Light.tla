-------------------------------- MODULE Light --------------------------------
(***************************************************************************)
(* Light in a world of boxes, in integers.                                 *)
(*   light  [o, v, w10, f, st, c, a10, fall, off]   place, brightness,     *)
(*     attenuation * 10, formula (0 linear, 1 inverse, 2 inverse square,   *)
(*     3 infinite, 5 inverse square with offset), style, colour, angle     *)
(*     scale * 10, distance of a linear fade, not static                   *)
(*   face   [a, d, lo, hi, b]   rectangle of the plane x_a = d; b: it      *)
(*     stops light                                                         *)
(* Brightness is computed in sixteenths.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LAbs(x) == IF x < 0 THEN -x ELSE x
LMax(a, b) == IF a > b THEN a ELSE b
LMin(a, b) == IF a < b THEN a ELSE b
OtherAxes(a) == IF a = 0 THEN <<1, 2>> ELSE IF a = 1 THEN <<0, 2>> ELSE <<0, 1>>

\* integer square root, rounded down
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Dist16(p, q) == LET d(i) == p[i] - q[i]
                IN  LMax(1, Root(256 * (d(1) * d(1) + d(2) * d(2) + d(3) * d(3)), 0, 46340))

---------------------------------------------------------------------------
\* How the line from p to q meets the rectangle f: "through" surely, "past" surely, or "touch" (too close to tell).
Meets(p, q, f) ==
  LET a == f.a + 1
      x == p[a] - f.d
      y == q[a] - f.d
      u == OtherAxes(f.a)[1] + 1
      v == OtherAxes(f.a)[2] + 1
  IN  IF (x > 0 /\ y > 0) \/ (x < 0 /\ y < 0) THEN "past"
      ELSE IF x = 0 \/ y = 0 THEN
        LET box(k, w) == LMax(p[w], q[w]) < f.lo[k] - 1 \/ LMin(p[w], q[w]) > f.hi[k] + 1
        IN  IF box(1, u) \/ box(2, v) THEN "past" ELSE "touch"
      ELSE LET den == LAbs(x - y)
               at(w) == 8 * (p[w] * den + LAbs(x) * (q[w] - p[w]))      \* 8 * den * coordinate of the crossing
               in(k, w) == at(w) > (8 * f.lo[k] + 1) * den /\ at(w) < (8 * f.hi[k] - 1) * den
               out(k, w) == at(w) < (8 * f.lo[k] - 1) * den \/ at(w) > (8 * f.hi[k] + 1) * den
           IN  IF in(1, u) /\ in(2, v) THEN "through" ELSE IF out(1, u) \/ out(2, v) THEN "past" ELSE "touch"

\* "open": nothing in between; "shut": something is; "unsure"
Sight(p, q, F) ==
  IF \E i \in DOMAIN F : F[i].b /\ Meets(p, q, F[i]) = "through" THEN "shut"
  ELSE IF \E i \in DOMAIN F : F[i].b /\ Meets(p, q, F[i]) = "touch" THEN "unsure" ELSE "open"

---------------------------------------------------------------------------
\* brightness at a distance, in sixteenths; s10: the map's distance scale * 10
Huge == 500000                                                 \* at least so much, really
Value16(L, d16, s10) ==
  LET w == L.w10 * s10
      v == LAbs(L.v)
      sq(r) == (v * ((r * r) \div 1024)) \div 64            \* r: ratio * 1024
      m == CASE L.f = 3 -> 16 * v
             [] L.f = 0 /\ L.fall > 0 -> IF 16 * L.fall > d16 THEN (v * (16 * L.fall - d16)) \div L.fall ELSE 0
             [] L.f = 0 -> LMax(0, 16 * v - (w * d16) \div 100)
             [] L.f = 1 -> LMin(Huge, (v * 3276800) \div LMax(1, w * d16))
             [] L.f = 2 -> LMin(Huge, sq(LMin(209715200 \div LMax(1, w * d16), 46000)))
             [] L.f = 5 -> sq(209715200 \div (w * d16 + 204800))
             [] OTHER -> 0
  IN  m
\* the share (of 1024) left by the angle whose cosine is c1024
Angle(L, c1024) == (1024 * (10 - L.a10) + L.a10 * c1024) \div 10
=============================================================================
