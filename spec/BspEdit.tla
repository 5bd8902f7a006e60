----------------------------- MODULE BspEdit -----------------------------
(* bsputil: a directory of files and the commands a command line applies    *)
(* one after the other to the BSP file at its end.  A command changes what  *)
(* it names and nothing else.  The contents of lumps and files are known by *)
(* tokens: equal tokens stand for equal bytes.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, Json, IOUtils, TLC
VARIABLES ci, pos, known
vars == <<ci, pos, known>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Cases[ci]
\* a directory is a sequence of [name, v]
Names(D) == {D[k].name : k \in DOMAIN D}
Get(D, n) == D[CHOOSE k \in DOMAIN D : D[k].name = n].v
Put(D, n, v) == IF n \in Names(D) THEN [k \in DOMAIN D |-> IF D[k].name = n THEN [name |-> n, v |-> v] ELSE D[k]]
                ELSE Append(D, [name |-> n, v |-> v])
SameDir(D, E) == Names(D) = Names(E) /\ \A n \in Names(D) : Get(D, n).k = Get(E, n).k /\ Get(D, n) = Get(E, n)
Raw(id) == [k |-> "raw", id |-> id]
\* ---- the commands; A is [D, mem, src, stop, err]
Fail(A) == [A EXCEPT !.stop = TRUE, !.err = TRUE]
Save(A, m) == [A EXCEPT !.mem = m, !.D = Put(@, A.src, m)]
Holds(A, n, k) == n \in Names(A.D) /\ Get(A.D, n).k = k
\* the pixels come with the texture; a texture of another size is left alone
Textured(t, W) == LET m == {k \in DOMAIN W : W[k].low = t.low /\ W[k].w = t.w /\ W[k].h = t.h}
                  IN IF t.id = "none" \/ m = {} THEN t ELSE W[CHOOSE k \in m : TRUE]
Lump(m, n) == {k \in DOMAIN m.bspx : m.bspx[k][1] = n}
Before(a, b) == a < b
Cmd(A, c) ==
  IF A.stop THEN A
  ELSE CASE c.op = "replace-entities" ->
              IF Holds(A, c.file, "raw") THEN Save(A, [A.mem EXCEPT !.ents = Get(A.D, c.file).id]) ELSE Fail(A)
         [] c.op = "extract-entities" -> [A EXCEPT !.D = Put(@, A.stem \o ".ent", Raw(A.mem.ents))]
         [] c.op = "extract-textures" ->
              [A EXCEPT !.D = Put(@, A.stem \o ".wad", [k |-> "wad", texs |-> SelectSeq(A.mem.texs, LAMBDA t : t.pix)])]
         [] c.op = "replace-textures" ->
              IF Holds(A, c.file, "wad") THEN Save(A, [A.mem EXCEPT !.texs = [k \in DOMAIN @ |-> Textured(@[k], Get(A.D, c.file).texs)]]) ELSE Fail(A)
         [] c.op = "insert-bspx-lump" ->
              IF ~Holds(A, c.file, "raw") THEN Fail(A)
              ELSE LET id == Get(A.D, c.file).id IN
                   [Save(A, [A.mem EXCEPT !.bspx = IF Lump(A.mem, c.lump) # {} THEN [k \in DOMAIN @ |-> IF @[k][1] = c.lump THEN <<c.lump, id>> ELSE @[k]]
                                                   ELSE Append(@, <<c.lump, id>>)]) EXCEPT !.stop = TRUE]
         [] c.op = "remove-bspx-lump" ->
              IF Lump(A.mem, c.lump) = {} THEN Fail(A)
              ELSE [Save(A, [A.mem EXCEPT !.bspx = SelectSeq(@, LAMBDA x : x[1] # c.lump)]) EXCEPT !.stop = TRUE]
         [] c.op = "extract-bspx-lump" ->
              IF Lump(A.mem, c.lump) = {} THEN Fail(A)
              ELSE [A EXCEPT !.D = Put(@, c.file, Raw(A.mem.bspx[CHOOSE k \in Lump(A.mem, c.lump) : TRUE][2])), !.stop = TRUE]
         [] c.op = "settexinfo" -> [Save(A, [A.mem EXCEPT !.ti[c.face + 1] = c.ti]) EXCEPT !.stop = TRUE]
         [] c.op = "convert" -> [A EXCEPT !.D = Put(@, A.stem \o "-" \o c.fmt, [A.mem EXCEPT !.fmt = c.fmt, !.other = IF c.fmt = A.mem.fmt THEN @ ELSE c.got])]
         [] c.op \in {"check", "modelinfo"} -> A
\* BSPX lumps have no order
Set(v) == IF v.k = "bsp" THEN [v EXCEPT !.bspx = {v.bspx[k] : k \in DOMAIN v.bspx}] ELSE v
Sorted(D) == [k \in DOMAIN D |-> [name |-> D[k].name, v |-> Set(D[k].v)]]
Step == C.steps[pos]
Old == IF pos = 1 THEN C.dir ELSE C.steps[pos - 1].dir
Run(s) == FoldLeft(Cmd, [D |-> Old, mem |-> Get(Old, s.src), src |-> s.src, stem |-> s.stem, stop |-> FALSE, err |-> FALSE], s.cmds)
\* ---- conversions: what a file is in one format it is again after a way through others
Class(S, x) == UNION ({{x}} \cup {K \in S : x \in K})
Learn(S, x, y) == LET K == Class(S, x) \cup Class(S, y) IN (S \ {J \in S : x \in J \/ y \in J}) \cup {K}
Conv(s) == SelectSeq(s.cmds, LAMBDA c : c.op = "convert")
Known(S, s) == FoldLeft(LAMBDA T, c : Learn(T, <<Get(Old, s.src).fmt, Get(Old, s.src).other>>, <<c.fmt, c.got>>), S, Conv(s))
Init == ci = 1 /\ pos = 1 /\ known = {}
Next == IF pos <= Len(C.steps)
        THEN /\ pos' = pos + 1 /\ UNCHANGED ci
             /\ known' = IF Step.cmds[1].op = "mv" THEN known ELSE Known(known, Step)
        ELSE ci < Len(Cases) /\ ci' = ci + 1 /\ pos' = 1 /\ known' = {}
Spec == Init /\ [][Next]_vars
Moved == LET c == Step.cmds[1] IN Put(SelectSeq(Old, LAMBDA e : e.name # c.from), c.to, Get(Old, c.from))
Effects == pos <= Len(C.steps) =>
   IF Step.cmds[1].op = "mv" THEN SameDir(Sorted(Moved), Sorted(Step.dir))
   ELSE LET A == Run(Step) IN SameDir(Sorted(A.D), Sorted(Step.dir)) /\ A.err = (Step.rc # 0)
\* one meaning, one file per format
Conversions == \A K \in known : \A x, y \in K : x[1] = y[1] => x = y
\* ---- the checksum printed with the entities: CCITT, as engines compute it over the lump without its final zero
Table == [i \in 0..255 |-> FoldLeft(LAMBDA r, k : IF r >= 32768 THEN ((r * 2) % 65536) ^^ 4129 ELSE r * 2, i * 256, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
Crc(s) == FoldLeft(LAMBDA r, b : ((r * 256) % 65536) ^^ Table[(r \div 256) ^^ b], 65535, s)
Checksum == (pos <= Len(C.steps) /\ Step.crc >= 0) => Step.crc = Crc(Step.text)
=============================================================================
