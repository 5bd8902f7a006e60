------------------------------ MODULE BspFile ------------------------------
(* BSP files as bytes: the record layouts of every format the tools read and *)
(* write, what a file holds, and what it must hold after it was loaded,      *)
(* converted to another format and written.  A case is one file and a        *)
(* sequence of such steps; what cannot be held is refused and then nothing   *)
(* that was stored changes.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES ci, i, fmt, held
vars == <<ci, i, fmt, held>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Cases[ci]
Op == C.ops[i]

\* ------------------------------------------------------------------ layouts
Q1S == {"bsp29", "hl", "hexen2"}
RMQ == {"bsp2rmq", "hexen2bsp2rmq"}
B2 == {"bsp2", "hexen2bsp2"}
Hexen == {"hexen2", "hexen2bsp2", "hexen2bsp2rmq"}
Q1 == Q1S \cup RMQ \cup B2
Q2 == {"q2bsp", "qbism"}
Formats == Q1 \cup Q2
F(n, k, c) == [n |-> n, k |-> k, c |-> c]
Box(k) == <<F("mins", k, 3), F("maxs", k, 3)>>
Records == {"planes", "vertexes", "nodes", "texinfo", "faces", "clipnodes", "leafs", "marksurfaces", "edges", "surfedges", "models",
            "leafbrushes", "brushes", "brushsides", "areas", "areaportals"}
Layout(f, l) ==
    CASE l = "planes" -> <<F("normal", "f32", 3), F("dist", "f32", 1), F("type", "s32", 1)>>
      [] l = "vertexes" -> <<F("at", "f32", 3)>>
      [] l = "surfedges" -> <<F("edge", "s32", 1)>>
      [] l = "nodes" -> LET small == f \in Q1S
                            nums == IF small \/ f = "q2bsp" THEN "u16" ELSE "u32"
                        IN <<F("planenum", "s32", 1), F("children", IF small THEN "s16" ELSE "s32", 2)>>
                           \o Box(IF f \in B2 \cup {"qbism"} THEN "f32" ELSE "s16") \o <<F("firstface", nums, 1), F("numfaces", nums, 1)>>
      [] l = "texinfo" -> IF f \in Q1 THEN <<F("vecs", "f32", 8), F("miptex", "s32", 1), F("flags", "s32", 1)>>
                          ELSE <<F("vecs", "f32", 8), F("flags", "s32", 1), F("value", "s32", 1), F("texture", "s32", 8), F("next", "s32", 1)>>
      [] l = "faces" -> LET rest == <<F("styles", "b8", 4), F("lightofs", "s32", 1)>>
                        IN IF f \in Q1S \cup {"q2bsp"}
                           THEN <<F("planenum", IF f = "q2bsp" THEN "u16" ELSE "s16", 1), F("side", "s16", 1), F("firstedge", "s32", 1),
                                  F("numedges", "s16", 1), F("texinfo", "s16", 1)>> \o rest
                           ELSE <<F("planenum", IF f = "qbism" THEN "u32" ELSE "s32", 1), F("side", "s32", 1), F("firstedge", "s32", 1),
                                  F("numedges", "s32", 1), F("texinfo", "s32", 1)>> \o rest
      [] l = "clipnodes" -> IF f \in Q1 THEN <<F("planenum", "s32", 1), F("children", IF f \in Q1S THEN "c16" ELSE "s32", 2)>> ELSE <<>>
      [] l = "leafs" -> LET nums == IF f \in Q1S \cup {"q2bsp"} THEN "u16" ELSE "u32"
                            box == Box(IF f \in B2 \cup {"qbism"} THEN "f32" ELSE "s16")
                            ints == IF f = "q2bsp" THEN "s16" ELSE "s32"
                        IN IF f \in Q1 THEN <<F("contents", "s32", 1), F("visofs", "s32", 1)>> \o box
                                            \o <<F("firstmark", nums, 1), F("nummark", nums, 1), F("ambient", "b8", 4)>>
                           ELSE <<F("contents", "s32", 1), F("cluster", ints, 1), F("area", ints, 1)>> \o box
                                \o <<F("firstmark", nums, 1), F("nummark", nums, 1), F("firstbrush", nums, 1), F("numbrush", nums, 1)>>
      [] l \in {"marksurfaces", "leafbrushes"} -> IF l = "leafbrushes" /\ f \in Q1 THEN <<>>
                                                  ELSE <<F("index", IF f \in Q1S \cup {"q2bsp"} THEN "u16" ELSE "u32", 1)>>
      [] l = "edges" -> <<F("vertex", IF f \in Q1S \cup {"q2bsp"} THEN "u16" ELSE "u32", 2)>>
      [] l = "models" -> Box("f32") \o <<F("origin", "f32", 3)>>
                         \o (IF f \in Q2 THEN <<F("headnode", "s32", 1)>>
                             ELSE <<F("headnode", "s32", IF f \in Hexen THEN 8 ELSE 4), F("visleafs", "s32", 1)>>)
                         \o <<F("firstface", "s32", 1), F("numfaces", "s32", 1)>>
      [] f \in Q1 -> <<>>
      [] l = "brushes" -> <<F("firstside", "s32", 1), F("numsides", "s32", 1), F("contents", "s32", 1)>>
      [] l = "brushsides" -> IF f = "q2bsp" THEN <<F("planenum", "u16", 1), F("texinfo", "s16", 1)>>
                             ELSE <<F("planenum", "u32", 1), F("texinfo", "s32", 1)>>
      [] l = "areas" -> <<F("num", "s32", 1), F("first", "s32", 1)>>
      [] l = "areaportals" -> <<F("portal", "s32", 1), F("other", "s32", 1)>>
Q1Order == <<"entities", "planes", "textures", "vertexes", "visibility", "nodes", "texinfo", "faces", "lighting", "clipnodes", "leafs",
             "marksurfaces", "edges", "surfedges", "models">>
Q2Order == <<"entities", "planes", "vertexes", "visibility", "nodes", "texinfo", "faces", "lighting", "leafs", "marksurfaces", "leafbrushes",
             "edges", "surfedges", "models", "brushes", "brushsides", "pop", "areas", "areaportals">>
Order(f) == IF f \in Q1 THEN Q1Order ELSE Q2Order
HeadSize(f) == IF f \in Q1 THEN 4 + 8 * 15 ELSE 8 + 8 * 19
Magic(f) == CASE f \in {"bsp29", "hexen2"} -> <<29, 0, 0, 0>>
              [] f = "hl" -> <<30, 0, 0, 0>>
              [] f \in B2 -> <<66, 83, 80, 50>>
              [] f \in RMQ -> <<50, 80, 83, 66>>
              [] f = "q2bsp" -> <<73, 66, 83, 80, 38, 0, 0, 0>>
              [] f = "qbism" -> <<81, 66, 83, 80, 38, 0, 0, 0>>
Bytes(k) == CASE k = "b8" -> 1 [] k \in {"s16", "u16", "c16"} -> 2 [] OTHER -> 4
\* the parts of a record one by one: [n |-> field, j |-> which part of it, k |-> kind, o |-> offset]
RECURSIVE Parts(_, _)
Parts(fs, o) == IF fs = <<>> THEN <<>>
                ELSE [j \in 1..fs[1].c |-> [n |-> fs[1].n, j |-> j, k |-> fs[1].k, o |-> o + (j - 1) * Bytes(fs[1].k)]]
                     \o Parts(Tail(fs), o + fs[1].c * Bytes(fs[1].k))
RECURSIVE SizeOf(_)
SizeOf(fs) == IF fs = <<>> THEN 0 ELSE fs[1].c * Bytes(fs[1].k) + SizeOf(Tail(fs))
Size == TLCEval([f \in Formats |-> TLCEval([l \in Records |-> SizeOf(Layout(f, l))])])
AllParts == TLCEval([f \in Formats |-> TLCEval([l \in Records |-> TLCEval(Parts(Layout(f, l), 0))])])
\* where each part of a record of format g comes from in a record of format f
Plan == TLCEval([f \in Formats |-> TLCEval([g \in Formats |-> TLCEval([l \in Records |-> TLCEval(
          LET P == AllParts[f][l]
              Q == AllParts[g][l]
          IN [x \in 1..Len(Q) |-> LET S == {y \in 1..Len(P) : P[y].n = Q[x].n /\ P[y].j = Q[x].j}
                                  IN [n |-> Q[x].n, to |-> Q[x].k, o |-> Q[x].o, has |-> S # {},
                                      from |-> IF S = {} THEN "" ELSE P[CHOOSE y \in S : TRUE].k,
                                      s |-> IF S = {} THEN 0 ELSE P[CHOOSE y \in S : TRUE].o]])])])])

\* ------------------------------------------------------------------- values
\* four bytes are kept as the two's complement number they make; what they mean depends on the kind
S32(b, o) == b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * (IF b[o + 4] >= 128 THEN b[o + 4] - 256 ELSE b[o + 4])
U16(b, o) == b[o + 1] + 256 * b[o + 2]
Read(k, b, o) == CASE k = "b8" -> b[o + 1]
                   [] k = "u16" -> U16(b, o)
                   [] k = "s16" -> IF U16(b, o) >= 32768 THEN U16(b, o) - 65536 ELSE U16(b, o)
                   [] k = "c16" -> IF U16(b, o) > 65520 THEN U16(b, o) - 65536 ELSE U16(b, o)
                   [] OTHER -> S32(b, o)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
          4194304, 8388608>>
Low == -2147483647 - 1
\* the float with this (16-bit) value
Float(v) == IF v = 0 THEN 0
            ELSE LET m == IF v < 0 THEN -v ELSE v
                     e == (CHOOSE x \in 1..17 : Pow2[x] <= m /\ m < Pow2[x + 1]) - 1
                     bits == (127 + e) * 8388608 + (m * Pow2[24 - e] - 8388608)
                 IN IF v < 0 THEN bits + Low ELSE bits
\* the nearest whole number below (or above) a float; 99999 stands for everything beyond 16 bits
Whole(bits, up) ==
    LET neg == bits < 0
        mag == IF neg THEN bits - Low ELSE bits
        e == mag \div 8388608
        m == 8388608 + (mag % 8388608)
        whole == IF e < 127 THEN 0 ELSE m \div Pow2[151 - e]
        more == IF e < 127 THEN mag # 0 ELSE m % Pow2[151 - e] # 0
    IN IF e >= 143 THEN 99999
       ELSE IF neg THEN -(whole + (IF more /\ ~up THEN 1 ELSE 0))
       ELSE whole + (IF more /\ up THEN 1 ELSE 0)
\* v of kind `from`, stored as `to`: <<can be held, as>>
Stored(p, v) ==
    CASE p.from = "f32" /\ p.to = "f32" -> <<TRUE, v>>
      [] p.from = "s16" /\ p.to = "f32" -> <<TRUE, Float(v)>>
      [] p.from = "f32" /\ p.to = "s16" -> LET w == Whole(v, p.n = "maxs") IN <<w >= -32768 /\ w <= 32767, w>>
      [] OTHER -> LET big == p.from = "u32" /\ v < 0  \* 2^31 and more
                  IN <<CASE p.to = "s16" -> ~big /\ v >= -32768 /\ v <= 32767
                         [] p.to = "u16" -> v >= 0 /\ v <= 65535
                         [] p.to = "c16" -> ~big /\ v >= -15 /\ v <= 65520
                         [] p.to = "u32" -> big \/ v >= 0
                         [] p.to = "s32" -> ~big
                         [] OTHER -> TRUE, v>>

\* -------------------------------------------------------------------- files
IndexOf(f, l) == CHOOSE x \in 1..Len(Order(f)) : Order(f)[x] = l
Has(f, l) == \E x \in 1..Len(Order(f)) : Order(f)[x] = l
LumpAt(f, b, x) == LET o == (IF f \in Q1 THEN 4 ELSE 8) + 8 * (x - 1) IN [o |-> S32(b, o), n |-> S32(b, o + 4)]
Lump(f, b, l) == LumpAt(f, b, IndexOf(f, l))
Data(f, b, l) == LET x == Lump(f, b, l) IN SubSeq(b, x.o + 1, x.o + x.n)
Up4(n) == ((n + 3) \div 4) * 4
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
EndOfLumps(f, b) == Up4(MaxOf({LumpAt(f, b, x).o + LumpAt(f, b, x).n : x \in 1..Len(Order(f))}))
NameLen(b, o, n) == LET Z == {k \in 1..n : b[o + k] = 0} IN IF Z = {} THEN n ELSE (CHOOSE k \in Z : \A m \in Z : k <= m) - 1
\* the named lumps behind the others: a set of <<name, data>>
Extras(f, b) == LET e == EndOfLumps(f, b)
                IN IF e + 8 > Len(b) THEN {}
                   ELSE {LET o == e + 8 + 32 * x
                         IN <<SubSeq(b, o + 1, o + NameLen(b, o, 24)), SubSeq(b, S32(b, o + 24) + 1, S32(b, o + 24) + S32(b, o + 28))>>
                         : x \in 0..S32(b, e + 4) - 1}
\* a file one may read at all
WellFormed(f, b) ==
    /\ Len(b) >= HeadSize(f) /\ SubSeq(b, 1, Len(Magic(f))) = Magic(f)
    /\ \A x \in 1..Len(Order(f)) : LET u == LumpAt(f, b, x) IN u.n >= 0 /\ u.o >= 0 /\ u.o + u.n <= Len(b)
                                     /\ (u.n > 0 => u.o >= HeadSize(f) /\ u.o % 4 = 0)
                                     /\ (Order(f)[x] \in Records => u.n % Size[f][Order(f)[x]] = 0)
                                     /\ \A y \in 1..Len(Order(f)) : LET w == LumpAt(f, b, y)
                                                                    IN x = y \/ u.n = 0 \/ w.n = 0 \/ u.o + u.n <= w.o \/ w.o + w.n <= u.o
    /\ LET e == EndOfLumps(f, b)
       IN e + 8 <= Len(b) => /\ SubSeq(b, e + 1, e + 4) = <<66, 83, 80, 88>>
                             /\ S32(b, e + 4) >= 0 /\ e + 8 + 32 * S32(b, e + 4) <= Len(b)
                             /\ \A x \in 0..S32(b, e + 4) - 1 : LET o == e + 8 + 32 * x
                                                                IN S32(b, o + 24) >= e /\ S32(b, o + 28) >= 0
                                                                   /\ S32(b, o + 24) % 4 = 0 /\ S32(b, o + 24) + S32(b, o + 28) <= Len(b)
\* the textures: for each either nothing or its bytes, which end where the next texture starts
Textures(b) == IF b = <<>> THEN <<>>
               ELSE LET n == S32(b, 0)
                        at(x) == S32(b, 4 * x)
                    IN [x \in 1..n |-> IF at(x) < 0 THEN [null |-> TRUE, d |-> <<>>]
                                       ELSE LET later == {at(y) : y \in {z \in 1..n : at(z) > at(x)}}
                                                end == IF later = {} THEN Len(b) ELSE CHOOSE y \in later : \A z \in later : y <= z
                                            IN [null |-> FALSE, d |-> SubSeq(b, at(x) + 1, end)]]
Padded(a, b) == Len(b) - Len(a) \in 0..3 /\ SubSeq(b, 1, Len(a)) = a /\ \A x \in Len(a) + 1..Len(b) : b[x] = 0
SameTextures(a, b) == LET s == Textures(a)
                          t == Textures(b)
                      IN Len(s) = Len(t) /\ \A x \in 1..Len(s) : s[x].null = t[x].null /\ Padded(s[x].d, t[x].d)
\* the entity text is closed by one zero byte
Closed(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN t ELSE Append(t, 0)

\* -------------------------------------------------------------- conversions
\* every value of every record of file b can be held in format g
CanHold(f, b, g) == \A l \in Records : Size[f][l] = 0 \/ Size[g][l] = 0 \/
    LET u == Lump(f, b, l)
        z == Size[f][l]
        plan == Plan[f][g][l]
    IN \A r \in 0..(u.n \div z) - 1 : \A x \in 1..Len(plan) : ~plan[x].has \/ Stored(plan[x], Read(plan[x].from, b, u.o + r * z + plan[x].s))[1]
SameRecords(l, f, b, g, c) == Size[f][l] = 0 \/ Size[g][l] = 0 \/
    LET u == Lump(f, b, l)
        w == Lump(g, c, l)
        z == Size[f][l]
        y == Size[g][l]
        plan == Plan[f][g][l]
    IN /\ u.n \div z = w.n \div y
       /\ \A r \in 0..(u.n \div z) - 1 : \A x \in 1..Len(plan) :
            LET v == Read(plan[x].to, c, w.o + r * y + plan[x].o)
            IN IF plan[x].has THEN v = Stored(plan[x], Read(plan[x].from, b, u.o + r * z + plan[x].s))[2]
               ELSE plan[x].n = "headnode" => v = 0
SameFamily(f, g) == (f \in Q1) = (g \in Q1)
\* c (format g) holds what b (format f) held
SameContent(f, b, g, c) ==
    /\ WellFormed(g, c)
    /\ \A l \in Records : SameRecords(l, f, b, g, c)
    /\ Data(g, c, "lighting") = Data(f, b, "lighting")
    /\ SameFamily(f, g) => Data(g, c, "visibility") = Data(f, b, "visibility")
    /\ Data(g, c, "entities") = Closed(Data(f, b, "entities"))
    /\ (f \in Q1 /\ g \in Q1) => SameTextures(Data(f, b, "textures"), Data(g, c, "textures"))
    /\ (f \in Q2 /\ g \in Q2) => Data(g, c, "pop") = Data(f, b, "pop")
    /\ Extras(g, c) = Extras(f, b)

\* held: 1 is the file the case starts with, i the outcome of step i-1; a refused step leaves the last one in force
Held(x) == IF x = 0 THEN C.b ELSE C.ops[x].b
Init == ci = 1 /\ i = 1 /\ fmt = Cases[1].f /\ held = 0
Step == i <= Len(C.ops) /\ i' = i + 1 /\ ci' = ci /\ (IF Op.ok THEN fmt' = Op.g /\ held' = i ELSE UNCHANGED <<fmt, held>>)
Over == i > Len(C.ops) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ fmt' = Cases[ci + 1].f /\ held' = 0
Spec == Init /\ [][Step \/ Over]_vars
Live == i <= Len(C.ops)
\* the file a case starts with is one the formats allow (the cases are made elsewhere)
Sound == i = 1 => WellFormed(C.f, C.b)
\* a file is taken for the format it was written in
Recognised == Live => Op.seen = fmt
\* a step is refused exactly when the target cannot hold what there is
Refused == Live => Op.ok = (Op.g \in Formats /\ CanHold(fmt, Held(held), Op.g))
\* a refused step leaves the file that was there
Untouched == Live /\ ~Op.ok => Op.b = C.was
Preserved == Live /\ Op.ok => SameContent(fmt, Held(held), Op.g, Op.b)
=============================================================================
