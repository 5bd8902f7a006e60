----------------------------- MODULE Decompile -----------------------------
(***************************************************************************)
(* Turning a BSP tree back into brushes.  A tree is walked from its head:  *)
(* every subtree still to be visited is held with the piece of space it    *)
(* divides; a node cuts that piece in two at its plane, a leaf that is not *)
(* empty becomes one brush filling its piece, and a leaf whose piece has   *)
(* no interior (it lies behind contradictory planes) becomes nothing.      *)
(* Trees, boxes and grids are those of Boxes.tla.                          *)
(***************************************************************************)
EXTENDS Boxes

VARIABLES
  todo,    \* set of [n, b]: a subtree and the piece of space it divides
  out      \* set of [b, k]: the brushes made so far

ClipTo(b, nd, front) ==
  LET a == nd.a + 1
  IN  IF front THEN [b EXCEPT !.lo[a] = Max2(@, nd.d)] ELSE [b EXCEPT !.hi[a] = Min2(@, nd.d)]
Nowhere(b) == \E a \in 1 .. 3 : b.lo[a] >= b.hi[a]

Start(t, bounds) ==
  /\ todo = {[n |-> t.head, b |-> bounds]}
  /\ out = {}

\* one step visits everything that is waiting
Walk(t, empty) ==
  LET leafs == {x \in todo : x.n < 0}
      inner == todo \ leafs
  IN  /\ todo # {}
      /\ todo' = UNION {{[n |-> t.nodes[x.n + 1].c[1], b |-> ClipTo(x.b, t.nodes[x.n + 1], TRUE)],
                         [n |-> t.nodes[x.n + 1].c[2], b |-> ClipTo(x.b, t.nodes[x.n + 1], FALSE)]} : x \in inner}
      /\ out' = out \cup {[b |-> x.b, k |-> t.leafs[-x.n]] : x \in {y \in leafs : t.leafs[-y.n] \notin empty /\ ~Nowhere(y.b)}}

Covers(b, m) == InBox2(m, b)
=============================================================================
