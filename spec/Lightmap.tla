------------------------------- MODULE Lightmap -------------------------------
(***************************************************************************)
(* What light leaves behind: every face that carries a lightmap owns a     *)
(* block of the lighting data, one picture per style, of the size its      *)
(* texture extents give; each picture element holds the light that reaches *)
(* the place it stands for.  One step of the specification examines one    *)
(* face.                                                                   *)
(*   C.faces[i] = [a, d, s, lo, hi, b, m   as in Light; s: the direction   *)
(*                 it faces, m: model                                      *)
(*                 vec   texture axes * 64 (s row, t row)                  *)
(*                 sp    its texture has no lightmap                       *)
(*                 st, ofs   style slots and offset in the face            *)
(*                 xs, xo, xsc   companion: style slots, offset, scale     *)
(*                 dv, dw, dh, do  decoupled: axes * 64, size, offset]     *)
(*   C.size  bytes of lighting, C.bpp bytes per element, C.lump its bytes, *)
(*   C.rgb   three bytes for each element (empty: none)                    *)
(*   C.scale elements per texture unit of plain blocks                     *)
(*   C.mode  "plain", "shift" (companion per face) or "decoupled"          *)
(*   C.vanilla  plain blocks are written in decoupled mode as well         *)
(*   C.unlit    a face with no light owns a block all the same             *)
(*   C.exact    one sample per element                                     *)
(*   C.lights, C.range10, C.s10, C.tree   as in LightGrid                  *)
(***************************************************************************)
EXTENDS Light, Json, IOUtils, TLC, FiniteSetsExt

Cases == TLCEval(ndJsonDeserialize(IOEnv.VERIF_CASES))
VARIABLES ci, fi       \* case, face
vars == <<ci, fi>>
C == Cases[ci]
F == C.faces[fi]

---------------------------------------------------------------------------
\* the size of a block
Pt(f, u, v) == LET o == OtherAxes(f.a) IN [i \in 1..3 |-> IF i = f.a + 1 THEN f.d ELSE IF i = o[1] + 1 THEN u ELSE v]
Corners(f) == {Pt(f, u, v) : u \in {f.lo[1], f.hi[1]}, v \in {f.lo[2], f.hi[2]}}
Coord(vec, r, p) == vec[4 * r + 1] * p[1] + vec[4 * r + 2] * p[2] + vec[4 * r + 3] * p[3] + vec[4 * r + 4]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Up(a, b) == -((-a) \div b)
LmMin(f, vec, r, sc) == Least({Coord(vec, r, p) : p \in Corners(f)}) \div (64 * sc)
LmMax(f, vec, r, sc) == Up(Most({Coord(vec, r, p) : p \in Corners(f)}), 64 * sc)
Width(f, vec, r, sc) == LmMax(f, vec, r, sc) - LmMin(f, vec, r, sc) + 1
Area(f, sc) == Width(f, f.vec, 0, sc) * Width(f, f.vec, 1, sc)

\* style slots: used ones first, then 255
Used(st) == LET n == Cardinality({i \in DOMAIN st : st[i] # 255}) IN SubSeq(st, 1, n)
SlotsOk(st) == /\ \A i, j \in DOMAIN st : i < j /\ st[i] = 255 => st[j] = 255
               /\ \A i, j \in DOMAIN st : i # j /\ st[i] # 255 => st[i] # st[j]
InFront(L, f) == (L.o[f.a + 1] - f.d) * f.s > 0
StyleOk(st, f) == \/ C.unlit /\ st = 0
                  \/ \E i \in DOMAIN C.lights : LET L == C.lights[i] IN L.st = st /\ ~L.off /\ (L.v > 0 \/ C.unlit) /\ (f.two \/ f.m > 0 \/ InFront(L, f))  \* (models may take the light of their middle)

\* the blocks a face owns: <<first byte, number of bytes>>
PlainHere(f) == C.mode = "plain" \/ C.vanilla \/ (C.mode = "shift" /\ f.xsc = C.scale)
Blocks(f) ==
  (IF f.ofs >= 0 THEN {<<f.ofs, Area(f, C.scale) * Len(Used(f.st)) * C.bpp>>} ELSE {})
  \cup (IF C.mode = "shift" /\ f.xo >= 0 THEN {<<f.xo, Area(f, f.xsc) * Len(Used(f.xs)) * C.bpp>>} ELSE {})
  \cup (IF C.mode = "decoupled" /\ f.do >= 0 THEN {<<f.do, f.dw * f.dh * Len(Used(f.st)) * C.bpp>>} ELSE {})
Apart(x, y) == x[1] + x[2] <= y[1] \/ y[1] + y[2] <= x[1]
AllBlocks == UNION {{<<i, b[1], b[2]>> : b \in Blocks(C.faces[i])} : i \in DOMAIN C.faces}

\* The face's slots and offsets fit together
Owns ==
  LET n == Len(Used(F.st))
  IN  /\ SlotsOk(F.st) /\ Len(F.st) = 4
      /\ n <= C.slots
      /\ SlotsOk(F.xs)
      /\ F.sp => n = 0 /\ F.ofs = -1 /\ Used(F.xs) = <<>> /\ F.do = -1
      /\ ~F.sp /\ C.unlit => n > 0
      /\ \A i \in 1..n : StyleOk(F.st[i], F)
      /\ \A i \in DOMAIN Used(F.xs) : StyleOk(F.xs[i], F)
      /\ IF n > 0 /\ PlainHere(F) THEN F.ofs >= 0 ELSE F.ofs = -1
      /\ C.mode = "shift" => /\ (F.xo >= 0) = (Len(Used(F.xs)) > 0)
                             /\ Len(Used(F.xs)) <= LMax(C.slots, 1)
                             /\ n = LMin(4, Len(Used(F.xs))) /\ \A i \in 1..n : F.st[i] = F.xs[i]
      /\ C.mode = "decoupled" => (F.do >= 0) = (n > 0)
\* one more run, with other speed, gives the same
Same == C.same
\* inside the lump, and nothing that differs shares a byte
Placed ==
  /\ \A b \in Blocks(F) : b[1] >= 0 /\ b[1] + b[2] <= C.size /\ b[1] % C.bpp = 0
  /\ \A b \in Blocks(F) : \A o \in AllBlocks : o[1] = fi \/ Apart(b, <<o[2], o[3]>>)
  /\ \A b, x \in Blocks(F) : b = x \/ Apart(b, x) \/ (C.mode = "shift" /\ F.xsc = C.scale)
\* a decoupled block has an element for every place of the face and no row or column too many
Decoupled ==
  C.mode = "decoupled" /\ F.do >= 0 =>
    \A r \in 0..1 : LET S == {Coord(F.dv, r, p) : p \in Corners(F)}
                        w == IF r = 0 THEN F.dw ELSE F.dh
                    IN  /\ Least(S) >= 0 /\ Least(S) < 64
                        /\ Most(S) <= 64 * (w - 1) /\ Most(S) > 64 * (w - 2)
\* colour and brightness agree
Grey(b) == \A k \in 0..(b[2] - 1) :
             LET i == b[1] + k IN C.lump[i + 1] = LMax(LMax(C.rgb[3 * i + 1], C.rgb[3 * i + 2]), C.rgb[3 * i + 3])
Coloured == C.grey /\ C.bpp = 1 /\ C.rgb # <<>> => Len(C.rgb) = 3 * C.size /\ \A b \in Blocks(F) : Grey(b)
\* the plain block of a face whose light is kept at another scale is made from that light
Spread(ofs, w, h, k, c) ==
  LET n == w * h
      S == IF C.bpp = 3 THEN {C.lump[ofs + 3 * ((k - 1) * n + q) + c] : q \in 0..(n - 1)}
           ELSE IF C.rgb = <<>> THEN {C.lump[ofs + (k - 1) * n + q + 1] : q \in 0..(n - 1)}
           ELSE {C.rgb[3 * (ofs + (k - 1) * n + q) + c] : q \in 0..(n - 1)}
  IN  TLCEval(<<Least(S), Most(S)>>)
Derived ==
  LET other == IF C.mode = "shift" /\ F.xsc # C.scale /\ F.xo >= 0
               THEN <<F.xo, Width(F, F.vec, 0, F.xsc), Width(F, F.vec, 1, F.xsc)>>
               ELSE IF C.mode = "decoupled" /\ F.do >= 0 THEN <<F.do, F.dw, F.dh>> ELSE <<>>
  IN  other # <<>> /\ F.ofs >= 0 =>
        \A k \in DOMAIN Used(F.st) : \A c \in 1..3 :
          LET a == Spread(F.ofs, Width(F, F.vec, 0, C.scale), Width(F, F.vec, 1, C.scale), k, c)
              b == Spread(other[1], other[2], other[3], k, c)
          IN  /\ C.mode = "shift" => a[1] >= b[1] - 1 /\ a[2] <= b[2] + 1
              \* (light is mixed before places in solid have taken that of their neighbours)
              /\ C.exact => a[2] <= b[2] + 1
\* (light that is stored in colour only leaves no grey)
Whole == (C.scale > 0) /\ IF C.grey THEN Len(C.lump) = C.size ELSE C.lump = <<>> /\ ~C.vanilla /\ Len(C.rgb) = 3 * C.size

\* what is stored is somebody's: blocks start at multiples of four elements and nothing else lies between them
Tight == fi > 1 \/ LET bs == UNION {Blocks(C.faces[i]) : i \in DOMAIN C.faces}
                   IN  C.size <= MapThenSumSet(LAMBDA b : ((b[2] \div C.bpp + 3) \div 4) * 4 * C.bpp, bs)
---------------------------------------------------------------------------
\* the place of element <<s, t>> of a block: 1 unit in front of the face; <<>> when it is no whole number
Comp(vec, r) == CHOOSE k \in 1..3 : vec[4 * r + k] # 0
Plain1(vec, r) == Cardinality({k \in 1..3 : vec[4 * r + k] # 0}) = 1
Where(f, vec, sc, m, s, t) ==
  LET k0 == Comp(vec, 0)
      k1 == Comp(vec, 1)
      x0 == 64 * sc * (m[1] + s) - vec[4]
      x1 == 64 * sc * (m[2] + t) - vec[8]
      v0 == vec[k0]
      v1 == vec[4 + k1]
  IN  IF ~Plain1(vec, 0) \/ ~Plain1(vec, 1) \/ k0 = k1 \/ k0 = f.a + 1 \/ k1 = f.a + 1 THEN <<>>
      ELSE IF x0 % LAbs(v0) # 0 \/ x1 % LAbs(v1) # 0 THEN <<>>
      ELSE LET q0 == (x0 \div LAbs(v0)) * (IF v0 > 0 THEN 1 ELSE -1)
               q1 == (x1 \div LAbs(v1)) * (IF v1 > 0 THEN 1 ELSE -1)
           IN  [i \in 1..3 |-> IF i = f.a + 1 THEN f.d + f.s ELSE IF i = k0 THEN q0 ELSE q1]
Inside(f, p) == LET o == OtherAxes(f.a)
                IN  \A k \in 1..2 : p[o[k] + 1] > f.lo[k] /\ p[o[k] + 1] < f.hi[k]

RECURSIVE InSolid(_, _)
InSolid(n, p) ==
  IF n < 0 THEN C.tree.solid[-n]
  ELSE LET nd == C.tree.nodes[n + 1]
           x == p[nd.a + 1] - nd.d
       IN  CASE x > 0 -> InSolid(nd.c[1], p)
             [] x < 0 -> InSolid(nd.c[2], p)
             [] OTHER -> InSolid(nd.c[1], p) \/ InSolid(nd.c[2], p)
InBox(p) == \E i \in DOMAIN C.boxes : \A a \in 1..3 : p[a] >= C.boxes[i].lo[a] /\ p[a] <= C.boxes[i].hi[a]
Free(p) == ~InSolid(C.tree.head, p) /\ ~InBox(p)

\* light that arrives at p on face f: least and greatest, in sixteenths
Contribution(L, p, f) ==
  IF L.off THEN <<0, 0>>
  ELSE LET x == (L.o[f.a + 1] - p[f.a + 1]) * f.s
       IN  IF x < 0 THEN <<0, 0>>
           ELSE LET d16 == Dist16(p, L.o)
                    v0 == Value16(L, d16, C.s10)
                    v == (v0 * Angle(L, LMin(1024, (16384 * x) \div d16))) \div 1024
                IN  IF v = 0 THEN <<0, 0>>
                    ELSE LET s == Sight(p, L.o, C.faces)
                             e == 3 + v \div 50
                             y == CASE s = "shut" -> <<0, 0>>
                                   [] s = "open" /\ x > 0 -> <<LMax(0, v - e), IF v0 = Huge THEN Huge ELSE v + e>>
                                   [] OTHER -> <<0, IF v0 = Huge THEN Huge ELSE v + e>>
                         IN  IF L.v > 0 THEN y ELSE <<-y[2], -y[1]>>
RECURSIVE Total(_, _, _, _, _)
Total(all, st, c, side, i) ==
  IF i > Len(C.lights) THEN 0
  ELSE Total(all, st, c, side, i + 1) + (IF C.lights[i].st # st THEN 0 ELSE all[i][side] * (IF LAbs(all[i][side]) = Huge THEN LMax(20, C.lights[i].c[c]) ELSE C.lights[i].c[c]))
Out(x) == ((LMax(0, x) \div 4080) * C.range10) \div 10
Styles == {C.lights[i].st : i \in DOMAIN C.lights}

\* the elements of one block, given the place of each
ValuesOk(f, st, ofs, vec, sc, m, w, h, slots) ==
  LET us == Used(st)
      places == {q \in {<<s, t, Where(f, vec, sc, m, s, t)>> : s \in 0..(w - 1), t \in 0..(h - 1)} :
                   (q[1] + 3 * q[2] + C.salt) % C.stride = 0 /\ q[3] # <<>> /\ Inside(f, q[3]) /\ Free(q[3])}
  IN  /\ \A q \in places :
        LET all == TLCEval([i \in DOMAIN C.lights |-> Contribution(C.lights[i], q[3], f)])
            hi(s, c) == Out(Total(all, s, c, 2, 1)) + 2
            lo(s, c) == Out(Total(all, s, c, 1, 1)) - 3
            at(k, c) == IF C.bpp = 3 THEN C.lump[ofs + 3 * ((k - 1) * w * h + q[2] * w + q[1]) + c]
                        ELSE IF C.rgb = <<>> THEN C.lump[ofs + (k - 1) * w * h + q[2] * w + q[1] + 1]
                        ELSE C.rgb[3 * (ofs + (k - 1) * w * h + q[2] * w + q[1]) + c]
            grey == C.bpp = 1 /\ C.rgb = <<>>
            top(s) == Most({hi(s, c) : c \in 1..3})
            bot(s) == Most({lo(s, c) : c \in 1..3})
        IN  /\ \A k \in DOMAIN us :
                 IF grey THEN at(k, 1) <= top(us[k]) /\ (top(us[k]) > 252 \/ at(k, 1) >= bot(us[k]))
                 ELSE /\ \A c \in 1..3 : at(k, c) <= hi(us[k], c) /\ (top(us[k]) > 252 \/ at(k, c) >= lo(us[k], c))
                      /\ bot(us[k]) > 258 => \E c \in 1..3 : at(k, c) >= 253
            \* light of a style that has no slot has been lost
            /\ Len(us) < slots => \A s \in Styles : bot(s) > 2 => \E k \in DOMAIN us : us[k] = s
      \* the brightest have the slots (the others must be many times weaker before that is certain)
      /\ Len(us) = slots /\ Cardinality(places) * C.stride * 10 >= 7 * w * h =>
           \A s \in Styles \ {us[k] : k \in DOMAIN us} : \A k \in DOMAIN us : \E q \in places :
             LET all == TLCEval([i \in DOMAIN C.lights |-> Contribution(C.lights[i], q[3], f)])
                 part(x, side) == LMin(255, Out(Total(all, x, 1, side, 1))) + LMin(255, Out(Total(all, x, 2, side, 1))) + LMin(255, Out(Total(all, x, 3, side, 1)))
             IN  part(s, 1) <= 3 * part(us[k], 2) + 20

Lit ==
  C.exact /\ ~F.sp /\ ~F.two =>
    LET plain == ValuesOk(F, F.st, F.ofs, F.vec, C.scale, <<LmMin(F, F.vec, 0, C.scale), LmMin(F, F.vec, 1, C.scale)>>,
                          Width(F, F.vec, 0, C.scale), Width(F, F.vec, 1, C.scale), LMin(4, C.slots))
    IN  CASE C.mode = "plain" -> plain
          [] C.mode = "shift" -> /\ F.xsc = C.scale => plain
                                 /\ ValuesOk(F, F.xs, F.xo, F.vec, F.xsc, <<LmMin(F, F.vec, 0, F.xsc), LmMin(F, F.vec, 1, F.xsc)>>,
                                             Width(F, F.vec, 0, F.xsc), Width(F, F.vec, 1, F.xsc), C.slots)
          [] OTHER -> F.do >= 0 => ValuesOk(F, F.st, F.do, F.dv, 1, <<0, 0>>, F.dw, F.dh, LMin(4, C.slots))

---------------------------------------------------------------------------
Init == ci = 1 /\ fi = 1
Next == \/ fi < C.nfaces /\ fi' = fi + 1 /\ ci' = ci
        \/ fi = C.nfaces /\ ci < Len(Cases) /\ ci' = ci + 1 /\ fi' = 1
Spec == Init /\ [][Next]_vars
=============================================================================
