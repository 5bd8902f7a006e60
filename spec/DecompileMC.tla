--------------------------- MODULE DecompileMC ---------------------------
(***************************************************************************)
(* All trees with up to Depth levels over a few planes: whatever the tree, *)
(* at every moment each point is in exactly one of the pieces waiting, the *)
(* brushes made and the empty leaves passed; at the end the brushes fill   *)
(* exactly what the tree says is not empty, and compiling them (a point    *)
(* has the contents of the brush it is in) is the same world.              *)
(***************************************************************************)
EXTENDS Decompile

CONSTANTS Depth, Planes, Kinds

\* the planes on offer, one of them on the border of the world
McPlanes == {<<0, 10>>, <<0, 20>>, <<1, 10>>, <<0, 30>>}
McFew == {<<0, 10>>, <<1, 10>>}

VARIABLES tree, seen

Bounds == [lo |-> <<0, 0, 0>>, hi |-> <<30, 20, 10>>]
Grid == MkGrid(<<0, 10, 20, 30>>, <<0, 10, 20>>, <<0, 10>>)

\* trees as nested values, then flattened to numbered nodes
RECURSIVE Shapes(_)
Shapes(d) == {[leaf |-> TRUE, k |-> k] : k \in Kinds} \cup
             (IF d = 0 THEN {} ELSE {[leaf |-> FALSE, p |-> p, f |-> f, g |-> g] : p \in Planes, f \in Shapes(d - 1), g \in Shapes(d - 1)})
LeafNo(k) == -(CHOOSE i \in 1 .. Cardinality(Kinds) : SetToSortSeq(Kinds, LAMBDA a, b : a = "EMPTY" \/ (a = "SOLID" /\ b # "EMPTY"))[i] = k)
LeafSeq == SetToSortSeq(Kinds, LAMBDA a, b : a = "EMPTY" \/ (a = "SOLID" /\ b # "EMPTY"))
RECURSIVE Flat(_, _)
\* nodes in preorder starting at number n
Flat(s, n) ==
  IF s.leaf THEN <<>>
  ELSE LET F == Flat(s.f, n + 1)
           G == Flat(s.g, n + 1 + Len(F))
       IN  <<[a |-> s.p[1], d |-> s.p[2], c |-> <<IF s.f.leaf THEN LeafNo(s.f.k) ELSE n + 1, IF s.g.leaf THEN LeafNo(s.g.k) ELSE n + 1 + Len(F)>>]>> \o F \o G
Tree(s) == [nodes |-> Flat(s, 0), head |-> IF s.leaf THEN LeafNo(s.k) ELSE 0, leafs |-> LeafSeq]

vars == <<tree, todo, out, seen>>
Init == /\ tree \in {Tree(s) : s \in Shapes(Depth)}
        /\ Start(tree, Bounds)
        /\ seen = {}
Next == /\ Walk(tree, {"EMPTY"})
        /\ seen' = seen \cup {x.b : x \in {y \in todo : y.n < 0 /\ tree.leafs[-y.n] = "EMPTY"}}
        /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars

Cells == 1 .. NCells(Grid)
At(c) == tree.leafs[-Descend(tree.nodes, tree.head, Mid2(Grid, c))]

\* every point is accounted for exactly once
Partition ==
  \A c \in Cells : LET m == Mid2(Grid, c)
                   IN Cardinality({x \in todo : Covers(x.b, m)}) + Cardinality({x \in out : Covers(x.b, m)}) + Cardinality({b \in seen : Covers(b, m)}) = 1
\* the brushes fill what the tree says is filled
Filled == (todo = {}) => \A c \in Cells : {x.k : x \in {y \in out : Covers(y.b, Mid2(Grid, c))}} = (IF At(c) = "EMPTY" THEN {} ELSE {At(c)})
\* no brush without an inside
Real == \A x \in out : \A a \in 1 .. 3 : x.b.lo[a] < x.b.hi[a]
\* the walk ends
Bounded == TLCGet("level") <= Depth + 2
=============================================================================
