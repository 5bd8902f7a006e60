----------------------------- MODULE BspValid -----------------------------
(* What an engine relies on when it loads a BSP file: every index refers to *)
(* something, lumps lie apart in the file, faces are closed convex loops of *)
(* their plane whose edges are shared properly, the models partition the    *)
(* faces, boxes enclose what is below them.  The trees are walked level by  *)
(* level: every node and leaf must be met exactly once.  Lengths are in     *)
(* sixteenths of a unit, normals in 1/1024.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLES ci, ti, front, nodes, leafs, clip
vars == <<ci, ti, front, nodes, leafs, clip>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
B == Cases[ci]
Within(first, num, len) == num >= 0 /\ first >= 0 /\ first + num <= len
Idx(k, len) == k >= 0 /\ k < len
\* ---- the file
Lumps == LET ls == [k \in DOMAIN B.lumps |-> <<B.lumps[k][1], B.lumps[k][1] + B.lumps[k][2]>>]
         IN /\ \A k \in DOMAIN ls : ls[k][1] >= B.header /\ ls[k][2] <= B.size
            /\ \A k \in DOMAIN ls : ls[k][1] < ls[k][2] => ls[k][1] % 4 = 0
            /\ \A k, m \in DOMAIN ls : k < m /\ ls[k][1] < ls[k][2] /\ ls[m][1] < ls[m][2] => (ls[k][2] <= ls[m][1] \/ ls[m][2] <= ls[k][1])
\* ---- references
Child(c, n, l) == IF c >= 0 THEN c < n ELSE -1 - c < l
PlaneOk(p) == /\ p.n[1] * p.n[1] + p.n[2] * p.n[2] + p.n[3] * p.n[3] \in (1024 * 1024 - 4096)..(1024 * 1024 + 4096)
              \* 0..2: along an axis; 3..5: nearest to that axis
              /\ LET a == [k \in 1..3 |-> IF p.n[k] < 0 THEN -p.n[k] ELSE p.n[k]] IN
                 IF p.t <= 2 THEN p.t >= 0 /\ a[p.t + 1] = 1024
                 ELSE p.t <= 5 /\ \A k \in 1..3 : a[p.t - 2] >= a[k] - 1
Planes == \A k \in DOMAIN B.planes : PlaneOk(B.planes[k])
\* engines compare one coordinate with the distance when a plane of a tree lies along an axis, so its normal must be positive
Forwards(k) == B.planes[k + 1].t <= 2 => B.planes[k + 1].n[B.planes[k + 1].t + 1] > 0
Trunks == /\ \A k \in DOMAIN B.nodes : Forwards(B.nodes[k].p)
          /\ \A k \in DOMAIN B.clip : Forwards(B.clip[k].p)
RNodes == \A k \in DOMAIN B.nodes : LET n == B.nodes[k] IN
              /\ Idx(n.p, Len(B.planes)) /\ Within(n.ff, n.nf, Len(B.faces))
              /\ \A c \in 1..2 : Child(n.c[c], Len(B.nodes), Len(B.leafs))
              \* the faces of a node lie on its plane
              /\ \A f \in (n.ff + 1)..(n.ff + n.nf) : B.faces[f].p = n.p \/ (B.q2 /\ B.faces[f].p \div 2 = n.p \div 2)
RLeafs == \A k \in DOMAIN B.leafs : LET l == B.leafs[k] IN
              /\ Within(l.fm, l.nm, Len(B.marks)) /\ Within(l.fb, l.nb, Len(B.leafbrushes))
              /\ l.area = 0 \/ Idx(l.area, Len(B.areas))
              /\ IF B.q2 THEN l.vis >= -1 /\ (B.clusters > 0 => l.vis < B.clusters)
                         ELSE l.vis = -1 \/ Idx(l.vis, B.vislen) \/ (l.vis = 0 /\ B.vislen = 0)
RClip == \A k \in DOMAIN B.clip : LET n == B.clip[k] IN
              /\ Idx(n.p, Len(B.planes)) /\ \A c \in 1..2 : IF n.c[c] >= 0 THEN n.c[c] < Len(B.clip) ELSE n.c[c] >= -6
RMarks == \A k \in DOMAIN B.marks : Idx(B.marks[k], Len(B.faces))
RLeafBrushes == \A k \in DOMAIN B.leafbrushes : Idx(B.leafbrushes[k], Len(B.brushes))
RSurfedges == \A k \in DOMAIN B.surfedges : LET e == B.surfedges[k] IN e # 0 /\ (IF e < 0 THEN -e ELSE e) < Len(B.edges)
REdges == \A k \in DOMAIN B.edges : \A s \in 1..2 : Idx(B.edges[k][s], Len(B.verts))
RFaces == \A k \in DOMAIN B.faces : LET f == B.faces[k] IN
              /\ Idx(f.p, Len(B.planes)) /\ f.s \in 0..1 /\ Idx(f.ti, Len(B.texinfo))
              /\ f.ne >= 3 /\ Within(f.fe, f.ne, Len(B.surfedges))
              /\ f.lo = -1 \/ Idx(f.lo, B.lightlen)
RTexinfo == \A k \in DOMAIN B.texinfo : B.q2 \/ Idx(B.texinfo[k], Len(B.textures)) \/ (Len(B.textures) = 0 /\ B.texinfo[k] = 0)
RBrushes == \A k \in DOMAIN B.brushes : Within(B.brushes[k][1], B.brushes[k][2], Len(B.sides)) /\ B.brushes[k][2] >= 4
RSides == \A k \in DOMAIN B.sides : Idx(B.sides[k][1], Len(B.planes)) /\ (B.sides[k][2] = -1 \/ Idx(B.sides[k][2], Len(B.texinfo)))
RAreas == \A k \in DOMAIN B.areas : Within(B.areas[k][2], B.areas[k][1], Len(B.areaportals))
RAreaPortals == \A k \in DOMAIN B.areaportals : Idx(B.areaportals[k][2], Len(B.areas))
REntities == \A k \in DOMAIN B.entmodels : Idx(B.entmodels[k], Len(B.models)) /\ B.entmodels[k] > 0
\* a texture is an empty slot, a name with four sizes inside the lump, or a name alone
Textures == \A k \in DOMAIN B.textures : LET t == B.textures[k] IN
               \/ t.o = -1
               \/ /\ t.o >= 4 + 4 * Len(B.textures) /\ t.o + 40 <= B.texlen
                  /\ t.named
                  /\ \A m \in 1..4 : LET n == (t.w \div (2 ^ (m - 1))) * (t.h \div (2 ^ (m - 1))) IN
                        t.m[m] = 0 \/ (t.m[m] >= 40 /\ t.o + t.m[m] + n <= B.texlen)
\* ---- faces
Edge(k) == LET e == B.surfedges[k] IN IF e >= 0 THEN B.edges[e + 1] ELSE <<B.edges[1 - e][2], B.edges[1 - e][1]>>
Loop(f) == \A k \in 0..(f.ne - 1) : Edge(f.fe + 1 + k)[2] = Edge(f.fe + 1 + ((k + 1) % f.ne))[1]
Corner(f, k) == B.verts[Edge(f.fe + 1 + (k % f.ne))[1] + 1]
Axis(p) == p.t <= 2
\* on its plane, and convex: every turn is to the right when the face is seen from its front (the way both games wind them)
Flat(f) == LET p == B.planes[f.p + 1]
               a == p.t + 1
               u == (a % 3) + 1
               v == (u % 3) + 1
               \* seen from the front the corners go round clockwise
               o == (IF p.n[a] > 0 THEN 1 ELSE -1) * (IF f.s = 1 THEN -1 ELSE 1)
               C == [k \in 0..(f.ne + 1) |-> Corner(f, k)]
               T(k) == ((C[k + 1][u] - C[k][u]) \div 4) * ((C[k + 2][v] - C[k + 1][v]) \div 4) - ((C[k + 1][v] - C[k][v]) \div 4) * ((C[k + 2][u] - C[k + 1][u]) \div 4)
           IN /\ \A k \in 0..(f.ne - 1) : C[k][a] * p.n[a] = 1024 * p.d
              /\ \A k \in 0..(f.ne - 1) : o * T(k) <= 0
              /\ \E k \in 0..(f.ne - 1) : T(k) # 0
              \* and going round once, not twice
              /\ Cardinality({k \in 0..(f.ne - 1) : C[k + 1][u] > C[k][u] /\ C[(k + f.ne - 1) % f.ne][u] >= C[k][u] /\ C[(k + f.ne - 1) % f.ne] # C[k + 1]}) <= 2
Loops == \A k \in DOMAIN B.faces : Loop(B.faces[k])
Shapes == \A k \in DOMAIN B.faces : Axis(B.planes[B.faces[k].p + 1]) => Flat(B.faces[k])
\* every edge but the unused first one was made for one face, forwards (others of the same contents may run along it backwards), and every surfedge belongs to one face
Shared == LET uses == SelectSeq(B.surfedges, LAMBDA e : e > 0)
          IN /\ IsInjective(uses) /\ Len(uses) = Len(B.edges) - 1
             /\ FoldSeq(LAMBDA f, s : s + f.ne, 0, B.faces) = Len(B.surfedges)
             /\ \A j, k \in DOMAIN B.faces : j < k => (B.faces[j].fe + B.faces[j].ne <= B.faces[k].fe \/ B.faces[k].fe + B.faces[k].ne <= B.faces[j].fe)
\* ---- models
Inside(x, m, slack) == \A a \in 1..3 : x[a] >= m.lo[a] - slack /\ x[a] <= m.hi[a] + slack
\* engines of the Quake family make the boxes of the models a unit larger, so they are written that much smaller
Models == /\ Len(B.models) > 0
          /\ FoldSeq(LAMBDA m, s : s + m.nf, 0, B.models) = Len(B.faces)
          /\ \A j \in DOMAIN B.models : Within(B.models[j].ff, B.models[j].nf, Len(B.faces))
          /\ \A j, k \in DOMAIN B.models : j < k /\ B.models[j].nf > 0 /\ B.models[k].nf > 0 =>
                (B.models[j].ff + B.models[j].nf <= B.models[k].ff \/ B.models[k].ff + B.models[k].nf <= B.models[j].ff)
          /\ \A j \in DOMAIN B.models : \A f \in (B.models[j].ff + 1)..(B.models[j].ff + B.models[j].nf) :
                \A k \in 0..(B.faces[f].ne - 1) : Inside(Corner(B.faces[f], k), B.models[j], IF B.q2 THEN 0 ELSE 16)
\* the first leaf is the solid one that all solid children share
Solid == B.leafs[1].solid /\ B.leafs[1].nm = 0
\* ---- the trees, walked one after the other
Trees == B.trees  \* [model, hull, head]
Tree == Trees[ti]
Kids(n) == IF Tree.hull = 0 THEN B.nodes[n + 1].c ELSE B.clip[n + 1].c
Enter(head) == <<head>>
Init == ci = 1 /\ ti = 1 /\ front = <<>> /\ nodes = <<>> /\ leafs = <<>> /\ clip = <<>>
\* nodes, leafs, clip: what was met so far, in order
Meet(kids) == LET inner == SelectSeq(kids, LAMBDA c : c >= 0)
                  outer == [k \in DOMAIN SelectSeq(kids, LAMBDA c : c < 0) |-> -1 - SelectSeq(kids, LAMBDA c : c < 0)[k]]
              IN /\ front' = inner
                 /\ IF Tree.hull = 0 THEN /\ nodes' = nodes \o inner
                                          /\ leafs' = leafs \o SelectSeq(outer, LAMBDA l : l # 0)
                                          /\ UNCHANGED clip
                                     ELSE clip' = clip \o inner /\ UNCHANGED <<nodes, leafs>>
Twice(s) == ~IsInjective(s)
Bad == Twice(nodes) \/ Twice(leafs) \/ Twice(clip)
Start == ti <= Len(Trees) /\ front = <<>> /\ Meet(<<Tree.head>>)
Down == ti <= Len(Trees) /\ front # <<>> /\ Meet(FlattenSeq([k \in DOMAIN front |-> Kids(front[k])]))
\* a tree is entered by Start; when its last level is done the next one follows
Next == \/ /\ ~Bad /\ ti <= Len(Trees) /\ front = <<>> /\ Start /\ UNCHANGED ci
           /\ ti' = IF Tree.head < 0 THEN ti + 1 ELSE ti
        \/ /\ ~Bad /\ ti <= Len(Trees) /\ front # <<>> /\ Down /\ UNCHANGED ci
           /\ ti' = IF \A k \in DOMAIN front : \A c \in 1..2 : Kids(front[k])[c] < 0 THEN ti + 1 ELSE ti
        \/ ti > Len(Trees) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ ti' = 1 /\ front' = <<>> /\ nodes' = <<>> /\ leafs' = <<>> /\ clip' = <<>>
Spec == Init /\ [][Next]_vars
Once == ~Bad
First == ti = 1 /\ front = <<>> /\ nodes = <<>> /\ clip = <<>>
Done == ti > Len(Trees)
All == Done => /\ Len(nodes) = Len(B.nodes)
               /\ Len(leafs) = Len(B.leafs) - 1
               /\ Len(clip) = Len(B.clip)
\* the leafs of a model follow those of the models before it, which is what the rows of the visibility data count on
LeafRuns == (Done /\ ~B.q2) =>
   LET at == [j \in 1..Len(B.models) |-> FoldSeq(LAMBDA m, s : s + m.visleafs, 0, SubSeq(B.models, 1, j - 1))]
   IN \A j \in DOMAIN B.models : /\ at[j] + B.models[j].visleafs <= Len(leafs)
                                /\ {leafs[k] : k \in (at[j] + 1)..(at[j] + B.models[j].visleafs)} = (at[j] + 1)..(at[j] + B.models[j].visleafs)
\* boxes
Box(c) == IF c >= 0 THEN B.nodes[c + 1] ELSE B.leafs[-c]
Encloses(p, c) == \A a \in 1..3 : p.lo[a] <= c.lo[a] /\ c.hi[a] <= p.hi[a]
Boxes == \A k \in DOMAIN B.nodes : LET n == B.nodes[k] IN
            /\ \A a \in 1..3 : n.lo[a] <= n.hi[a]
            /\ \A s \in 1..2 : n.c[s] # -1 => Encloses(n, Box(n.c[s]))
            /\ \A f \in (n.ff + 1)..(n.ff + n.nf) : \A e \in 0..(B.faces[f].ne - 1) : Inside(Corner(B.faces[f], e), n, 0)
ILumps == First => Lumps
IPlanes == First => Planes
ITrunks == First => Trunks
IRNodes == First => RNodes
IRLeafs == First => RLeafs
IRClip == First => RClip
IRMarks == First => RMarks
IRLeafBrushes == First => RLeafBrushes
IRSurfedges == First => RSurfedges
IREdges == First => REdges
IRFaces == First => RFaces
IRTexinfo == First => RTexinfo
IRBrushes == First => RBrushes
IRSides == First => RSides
IRAreas == First => RAreas
IRAreaPortals == First => RAreaPortals
IREntities == First => REntities
ITextures == First => Textures
ILoops == First => Loops
IShapes == First => Shapes
IShared == (First /\ B.fromqbsp) => Shared
\* the lists of the leafs lie one after the other
Runs(s) == \A j, k \in DOMAIN s : j < k /\ s[j][2] > 0 /\ s[k][2] > 0 => (s[j][1] + s[j][2] <= s[k][1] \/ s[k][1] + s[k][2] <= s[j][1])
Marks == /\ Runs([k \in DOMAIN B.leafs |-> <<B.leafs[k].fm, B.leafs[k].nm>>])
         /\ FoldSeq(LAMBDA l, s : s + l.nm, 0, B.leafs) = Len(B.marks)
IMarks == First => Marks
\* the faces of the nodes: each face belongs to one node
NodeFaces == /\ Runs([k \in DOMAIN B.nodes |-> <<B.nodes[k].ff, B.nodes[k].nf>>])
             /\ FoldSeq(LAMBDA l, s : s + l.nf, 0, B.nodes) = Len(B.faces)
INodeFaces == First => NodeFaces
IModels == First => Models
ISolid == First => Solid
IBoxes == First => Boxes
=============================================================================
