----------------------------- MODULE FileSearch -----------------------------
(* The search path: places are added over time (directories, paks and wads,  *)
(* later ones before earlier ones) and names are looked up in them.  Paks    *)
(* and wads are given as their bytes and read here entry by entry.           *)
(* Paths are [abs |-> given as an absolute path?, c |-> components]; both    *)
(* kinds are relative to the directory the case runs in.                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES ci, i, dirs, archs, verdict
vars == <<ci, i, dirs, archs, verdict>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Cases[ci]
Op == C.ops[i]
Nothing == <<>>

\* ---------------------------------------------------------- the file system
FileAt(p) == {x \in 1..Len(C.files) : C.files[x].p = p}
IsFile(p) == FileAt(p) # {}
Bytes(p) == C.files[CHOOSE x \in FileAt(p) : TRUE].d
IsDir(p) == \E x \in 1..Len(C.dirs) : C.dirs[x] = p
Exists(p) == p # <<>> /\ (IsFile(p) \/ IsDir(p))
Last(p) == p[Len(p)]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Low(s) == [x \in 1..Len(s) |-> IF s[x] >= 65 /\ s[x] <= 90 THEN s[x] + 32 ELSE s[x]]
RECURSIVE Joined(_)
Joined(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Joined(Tail(p))
EndsWith(s, t) == Len(s) > Len(t) /\ Low(SubSeq(s, Len(s) - Len(t) + 1, Len(s))) = t
PAK == <<46, 112, 97, 107>>
WAD == <<46, 119, 97, 100>>

\* ------------------------------------------------------------ paks and wads
U32(b, o) == IF b[o + 4] >= 4 THEN 100000000 ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
Magic(b) == SubSeq(b, 1, 4)
NameIn(b, o, n) == LET Z == {k \in 1..n : b[o + k] = 0}
                       l == IF Z = {} THEN n ELSE (CHOOSE k \in Z : \A m \in Z : k <= m) - 1
                   IN SubSeq(b, o + 1, o + l)
\* <<readable?, entries>>; an entry is [n |-> name, o |-> offset, l |-> length]
Directory(b, pak) ==
    IF Len(b) < 12 \/ (pak /\ Magic(b) # <<80, 65, 67, 75>>) \/ (~pak /\ Magic(b) \notin {<<87, 65, 68, 50>>, <<87, 65, 68, 51>>}) THEN <<FALSE, <<>>>>
    ELSE LET es == IF pak THEN 64 ELSE 32
             at == IF pak THEN U32(b, 4) ELSE U32(b, 8)
             n == IF pak THEN U32(b, 8) \div 64 ELSE U32(b, 4)
         IN IF n = 0 THEN <<TRUE, <<>>>>
            ELSE IF n > Len(b) \/ at > Len(b) \/ at + es * n > Len(b) THEN <<FALSE, <<>>>>
            ELSE <<TRUE, [x \in 1..n |-> LET o == at + es * (x - 1)
                                         IN IF pak THEN [n |-> NameIn(b, o, 56), o |-> U32(b, o + 56), l |-> U32(b, o + 60)]
                                            ELSE [n |-> NameIn(b, o + 16, 16), o |-> U32(b, o), l |-> U32(b, o + 4)]]>>
ArchiveKind(p) == IF EndsWith(Last(p), PAK) THEN "pak" ELSE IF EndsWith(Last(p), WAD) THEN "wad" ELSE "none"
DirOf(p) == Directory(Bytes(p), ArchiveKind(p) = "pak")
Readable(p) == ArchiveKind(p) # "none" /\ DirOf(p)[1]
Entries(p, f) == LET d == DirOf(p)[2] IN {x \in 1..Len(d) : Low(d[x].n) = Low(Joined(f))}
\* what loading entry f of archive p gives
EntryData(p, f) == LET E == Entries(p, f)
                       e == DirOf(p)[2][CHOOSE x \in E : \A y \in E : y <= x]
                   IN IF E = {} \/ e.o > Len(Bytes(p)) \/ e.l > Len(Bytes(p)) \/ e.o + e.l > Len(Bytes(p)) THEN [ok |-> FALSE, d |-> <<>>]
                      ELSE [ok |-> TRUE, d |-> SubSeq(Bytes(p), e.o + 1, e.o + e.l)]

\* -------------------------------------------------------------- the search
\* a state of the search path: d directories, a archives, strongest first, each [p |-> path, x |-> marked external]
Has(places, p) == \E x \in 1..Len(places) : places[x].p = p
The(places, p) == places[CHOOSE x \in 1..Len(places) : places[x].p = p]
\* adding a place: [st, got: the place or Nothing]
AddReal(st, p, ext) ==
    IF IsDir(p) THEN (IF Has(st.d, p) THEN [st |-> st, got |-> <<The(st.d, p)>>] ELSE [st |-> [st EXCEPT !.d = <<[p |-> p, x |-> ext]>> \o st.d], got |-> <<[p |-> p, x |-> ext]>>])
    ELSE IF Has(st.a, p) THEN [st |-> st, got |-> <<The(st.a, p)>>]
    ELSE IF Readable(p) THEN [st |-> [st EXCEPT !.a = <<[p |-> p, x |-> ext]>> \o st.a], got |-> <<[p |-> p, x |-> ext]>>]
    ELSE [st |-> st, got |-> Nothing]
Add(st, p, ext) == IF p = <<>> THEN [st |-> st, got |-> Nothing]
                   ELSE IF Exists(p) THEN AddReal(st, p, ext)
                   ELSE IF Exists(<<Last(p)>>) THEN AddReal(st, <<Last(p)>>, ext)
                   ELSE [st |-> st, got |-> Nothing]
\* a path through an archive: the innermost proper ancestor that is a file
SplitAt(p) == LET S == {n \in 1..(Len(p) - 1) : IsFile(SubSeq(p, 1, n))} IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
FirstIn(S) == CHOOSE x \in S : \A y \in S : x <= y
\* where a name is found: [st, got: <<>> or <<kind, place, name>>]
Found(st, p, loose) ==
    LET inDirs == {x \in 1..Len(st.d) : IsFile(st.d[x].p \o p.c)}
        inArchs == {x \in 1..Len(st.a) : Entries(st.a[x].p, p.c) # {}}
        here == IF IsFile(p.c) THEN <<"here", <<>>, p.c>> ELSE Nothing
        dir == IF inDirs # {} THEN <<"dir", st.d[FirstIn(inDirs)].p, p.c>> ELSE Nothing
        arch == IF inArchs # {} THEN <<"arch", st.a[FirstIn(inArchs)].p, p.c>> ELSE Nothing
        pick == IF p.abs THEN <<here>> ELSE IF loose THEN <<here, dir, arch>> ELSE <<arch, dir, here>>
        S == {x \in 1..Len(pick) : pick[x] # Nothing}
    IN IF S = {} THEN Nothing ELSE pick[FirstIn(S)]
Where(st, p, loose) ==
    LET n == SplitAt(p.c)
        a == Add(st, SubSeq(p.c, 1, n), FALSE)
    IN IF n > 0 /\ a.got # Nothing THEN [st |-> a.st, got |-> <<"arch", a.got[1].p, SubSeq(p.c, n + 1, Len(p.c))>>]
       ELSE [st |-> st, got |-> Found(st, p, loose)]
Data(w) == IF w = Nothing THEN [ok |-> FALSE, d |-> <<>>]
           ELSE IF w[1] = "arch" THEN EntryData(w[2], w[3])
           ELSE [ok |-> TRUE, d |-> Bytes(w[2] \o w[3])]

\* ---------------------------------------------------------------- histories
St == [d |-> dirs, a |-> archs]
Init == ci = 1 /\ i = 1 /\ dirs = <<>> /\ archs = <<>> /\ verdict = ""
Become(st) == dirs' = st.d /\ archs' = st.a
Say(ok, what) == verdict' = IF ok THEN "" ELSE what
Step == /\ i <= Len(C.ops)
        /\ CASE Op.o = "a" -> LET r == Add(St, Op.p.c, Op.f) IN Become(r.st) /\ Say(IF r.got = Nothing THEN ~Op.ok ELSE Op.ok /\ Op.q = r.got[1].p /\ Op.x = r.got[1].x, "added")
             [] Op.o = "w" -> LET r == Where(St, Op.p, Op.f)
                              IN Become(r.st) /\ Say(IF r.got = Nothing THEN ~Op.ok ELSE Op.ok /\ Op.q = r.got[2] /\ Op.n = r.got[3], "place")
             [] Op.o = "l" -> LET r == Where(St, Op.p, Op.f)
                                  d == Data(r.got)
                              IN Become(r.st) /\ Say(Op.ok = d.ok /\ (d.ok => Op.d = d.d), "bytes")
             [] Op.o = "s" -> LET n == SplitAt(Op.p.c)
                              IN UNCHANGED <<dirs, archs>> /\ Say(IF n = 0 THEN ~Op.ok ELSE Op.ok /\ Op.q = SubSeq(Op.p.c, 1, n) /\ Op.n = SubSeq(Op.p.c, n + 1, Len(Op.p.c)), "split")
             [] Op.o = "r" -> LET n == SplitAt(Op.p.c)
                              IN UNCHANGED <<dirs, archs>> /\ Say(Op.q = IF n = 0 THEN Op.p.c ELSE SubSeq(Op.p.c, 1, n - 1) \o SubSeq(Op.p.c, n + 1, Len(Op.p.c)), "resolved")
             [] Op.o = "clear" -> dirs' = <<>> /\ archs' = <<>> /\ verdict' = ""
        /\ i' = i + 1 /\ UNCHANGED ci
NextCase == i > Len(C.ops) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ dirs' = <<>> /\ archs' = <<>> /\ verdict' = ""
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
Agrees == verdict = ""
\* no place is ever searched twice
NoDoubles == \A x, y \in 1..Len(dirs) : x # y => dirs[x].p # dirs[y].p
NoDoubleArchives == \A x, y \in 1..Len(archs) : x # y => archs[x].p # archs[y].p
=============================================================================
