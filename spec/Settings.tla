------------------------------ MODULE Settings ------------------------------
(* Containers of settings under any history of being set by any source,      *)
(* parsed from map text and command lines, reset and copied.  A setting is a *)
(* value and the source it came from; a weaker source never replaces what a  *)
(* stronger one set.  The machine makes each step of a history and compares  *)
(* its state with that of the repository's containers.                       *)
EXTENDS Tokens, Numbers, FiniteSets, Json, IOUtils, TLC
VARIABLES ci, i, A, B, verdict
vars == <<ci, i, A, B, verdict>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
UNDER == 95
MINUS == 45
RECURSIVE StripU(_)
StripU(n) == IF n # <<>> /\ n[1] = UNDER THEN StripU(Tail(n)) ELSE n
RECURSIVE StripM(_)
StripM(n) == IF n # <<>> /\ n[1] = MINUS THEN StripM(Tail(n)) ELSE n
Low(s) == [x \in 1..Len(s) |-> Lower(s[x])]
Inverted(n) == LET m == StripU(n) IN Len(m) >= 2 /\ m[1] = 110 /\ m[2] = 111
NamesOf(d) == IF d.k = "ibool" THEN d.names \o [x \in 1..Len(d.names) |-> <<110, 111>> \o d.names[x]] ELSE d.names
\* index of the setting a name stands for, 0 for none
Find(defs, n) == LET m == StripU(n)
                     S == {x \in 1..Len(defs) : \E y \in 1..Len(NamesOf(defs[x])) : NamesOf(defs[x])[y] = m}
                 IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

\* directions: cosines and sines of multiples of a right angle
Cos(a) == CASE (a \div 90) % 4 = 0 -> 1 [] (a \div 90) % 4 = 2 -> -1 [] OTHER -> 0
Sin(a) == CASE (a \div 90) % 4 = 1 -> 1 [] (a \div 90) % 4 = 3 -> -1 [] OTHER -> 0
Mangle(v) == LET y == v[1] \div 8
                 p == v[2] \div 8
             IN <<8 * Cos(y) * Cos(p), 8 * Sin(y) * Cos(p), 8 * Sin(p)>>
Colour(v) == IF \A x \in 1..3 : v[x] >= 0 /\ v[x] <= 8 THEN [x \in 1..3 |-> 255 * v[x]] ELSE v
\* what a setting keeps of a value it is given
Keep(d, v) == CASE d.k \in {"int", "vint", "float"} -> Clamp(v, d.mn, d.mx)
                [] d.k = "mangle" -> Mangle(v)
                [] d.k = "color" -> Colour(v)
                [] OTHER -> v
Default(d) == CASE d.k = "set" -> {} [] d.k = "func" -> <<0, 0>> [] d.k = "redirect" -> <<>> [] OTHER -> d.dv
Fresh(defs) == [v |-> [x \in 1..Len(defs) |-> Default(defs[x])], s |-> [x \in 1..Len(defs) |-> 0]]
Put(defs, st, x, v, src) == IF src < st.s[x] THEN st
                            ELSE [v |-> [st.v EXCEPT ![x] = IF defs[x].k = "set" THEN st.v[x] \cup {v} ELSE Keep(defs[x], v)], s |-> [st.s EXCEPT ![x] = src]]

\* ---------------------------------------------------------------- parsing
\* a setting takes its value from the tokens tk at position p: [ok, p, st]
More(tk, p) == p <= Len(tk)
Done(p, st) == [ok |-> TRUE, p |-> p, st |-> st]
Refused(p, st) == [ok |-> FALSE, p |-> p, st |-> st]
Reals(tk, p, n) == [x \in 1..n |-> RealAt(tk[p + x - 1])]
HowMany(tk, p) == LET Good(n) == p + n - 1 <= Len(tk) /\ \A x \in 1..n : RealAt(tk[p + x - 1])[1]
                  IN CHOOSE n \in 0..3 : (n = 0 \/ Good(n)) /\ (n = 3 \/ ~Good(n + 1))
ZERO == <<48>>
ONE == <<49>>
MINUSONE == <<45, 49>>
RECURSIVE Parse(_, _, _, _, _, _, _)
RECURSIVE Each(_, _, _, _, _, _, _, _)
Parse(defs, st, x, name, tk, p, src) ==
    LET d == defs[x]
        P(v, q) == Done(q, Put(defs, st, x, v, src))
    IN CASE d.k \in {"bool", "ibool"} ->
              LET truth == IF d.k = "ibool" /\ Inverted(name) THEN 0 ELSE 1
              IN IF More(tk, p) /\ tk[p] \in {ZERO, ONE, MINUSONE} THEN P(IF tk[p] = ONE THEN truth ELSE 1 - truth, p + 1) ELSE P(truth, p)
         [] d.k \in {"int", "vint", "float"} ->
              LET r == IF ~More(tk, p) THEN <<FALSE, 0>> ELSE IF d.k = "float" THEN RealAt(tk[p]) ELSE IntAt(tk[p])
              IN IF r[1] THEN LET q == P(r[2], p + 1)
                                  w == q.st.v[x]
                              IN IF d.k = "vint" /\ w # 0 /\ w < 3 THEN Refused(p + 1, q.st) ELSE q
                 ELSE IF d.om THEN P(d.ov, p) ELSE Refused(p, st)
         [] d.k = "enum" ->
              IF ~More(tk, p) THEN Refused(p, st)
              ELSE LET M == {y \in 1..Len(d.labels) : Low(d.labels[y][1]) = Low(tk[p])}
                       n == IntAt(tk[p])
                   IN IF M # {} THEN P(d.labels[CHOOSE y \in M : TRUE][2], p + 1)
                      ELSE IF n[1] /\ ~n[3] THEN P(n[2], p + 1) ELSE Refused(p + 1, st)
         [] d.k \in {"string", "path", "set"} -> IF More(tk, p) THEN P(tk[p], p + 1) ELSE Refused(p, st)
         [] d.k \in {"vec3", "color"} -> IF HowMany(tk, p) < 3 THEN Refused(p, st) ELSE LET r == Reals(tk, p, 3) IN P([y \in 1..3 |-> r[y][2]], p + 3)
         [] d.k = "mangle" -> LET n == HowMany(tk, p)
                                  r == Reals(tk, p, n)
                              IN P([y \in 1..3 |-> IF y <= n THEN r[y][2] ELSE 0], p + n)
         [] d.k = "func" -> Done(p, [st EXCEPT !.v[x] = <<st.v[x][1] + 1, src>>])
         [] d.k = "redirect" -> Each(defs, st, d.targets, 1, name, tk, p, src)
Each(defs, st, t, n, name, tk, p, src) ==
    LET r == Parse(defs, st, t[n], name, tk, p, src)
    IN IF ~r.ok \/ n = Len(t) THEN r ELSE Each(defs, r.st, t, n + 1, name, tk, p, src)

\* a named setting set from text: result 0 set, 1 no such setting, 2 invalid, 3 refused with an exception
Named(defs, st, name, text, src) ==
    LET x == Find(defs, name)
        tk == Tokens(text, 1, <<>>)[1]
    IN IF x = 0 THEN [r |-> IF src = 3 THEN 3 ELSE 1, st |-> st]
       ELSE LET q == Parse(defs, st, x, name, tk, 1, src) IN [r |-> IF q.ok THEN 0 ELSE 2, st |-> q.st]
RECURSIVE FromDict(_, _, _, _, _)
FromDict(defs, st, kv, n, src) == IF n > Len(kv) THEN st ELSE FromDict(defs, Named(defs, st, kv[n][1], kv[n][2], src).st, kv, n + 1, src)
HELP == {<<104, 101, 108, 112>>, <<104>>, <<63>>}
\* a command line: [r: "" | "refused" | "help", p: where the remainder begins, st]
RECURSIVE CommandLine(_, _, _, _)
CommandLine(defs, st, tk, p) ==
    IF p > Len(tk) \/ tk[p] = <<>> \/ tk[p][1] # MINUS THEN [r |-> "", p |-> p, st |-> st]
    ELSE LET name == StripM(tk[p])
             x == Find(defs, name)
         IN IF name = <<>> THEN [r |-> "refused", p |-> p, st |-> st]
            ELSE IF name \in HELP THEN [r |-> "help", p |-> p, st |-> st]
            ELSE IF x = 0 THEN [r |-> "refused", p |-> p, st |-> st]
            ELSE LET q == Parse(defs, st, x, name, tk, p + 1, 3)
                 IN IF ~q.ok THEN [r |-> "refused", p |-> p, st |-> q.st] ELSE CommandLine(defs, q.st, tk, q.p)
\* ------------------------------------------------------- reset, copy, help
Reset(defs, st, x) == IF defs[x].k \in {"func", "redirect"} THEN st ELSE [v |-> [st.v EXCEPT ![x] = Default(defs[x])], s |-> [st.s EXCEPT ![x] = 0]]
ResetAll(defs, st) == LET F == Fresh(defs) IN [v |-> [x \in 1..Len(defs) |-> IF defs[x].k \in {"func", "redirect"} THEN st.v[x] ELSE F.v[x]],
                                               s |-> [x \in 1..Len(defs) |-> IF defs[x].k \in {"func", "redirect"} THEN st.s[x] ELSE 0]]
Class(k) == CASE k \in {"bool", "ibool"} -> "b" [] k \in {"int", "vint"} -> "i" [] k \in {"vec3", "mangle", "color"} -> "v" [] OTHER -> k
CopyInto(defs, st, odefs, ost) ==
    LET from == [x \in 1..Len(defs) |-> LET y == Find(odefs, defs[x].names[1])
                                        IN IF y = 0 \/ defs[x].k \in {"func", "redirect"} \/ Class(defs[x].k) # Class(odefs[y].k) THEN 0 ELSE y]
    IN [v |-> [x \in 1..Len(defs) |-> IF from[x] = 0 THEN st.v[x] ELSE ost.v[from[x]]],
        s |-> [x \in 1..Len(defs) |-> IF from[x] = 0 THEN st.s[x] ELSE ost.s[from[x]]]]
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
\* the help names each setting in a line of its own, followed by its other names
HelpOK(defs, lines) ==
    \A x \in 1..Len(defs) :
        LET n == NamesOf(defs[x])
            S == {l \in 1..Len(lines) : Starts(lines[l], <<32, 32, 45>> \o n[1] \o <<32>>)}
        IN Cardinality(S) = 1 /\ \A y \in 2..Len(n) : LET l == (CHOOSE z \in S : TRUE) + y - 1 IN l <= Len(lines) /\ lines[l] = <<32, 32, 32, 92>> \o n[y]
\* the text a setting shows for its value ("?" where the spec does not say)
Open == <<63>>
Shown(d, v) == CASE d.k \in {"bool", "ibool", "int", "vint"} -> Dec(v)
                 [] d.k \in {"string", "path"} -> v
                 [] d.k = "enum" -> (LET S == {y \in 1..Len(d.labels) : d.labels[y][2] = v} IN IF Cardinality(S) = 1 THEN d.labels[CHOOSE y \in S : TRUE][1] ELSE Open)
                 [] OTHER -> Open

\* --------------------------------------------------------------- histories
C == Cases[ci]
Op == C.ops[i]
Seen(d, v) == IF d.k = "set" THEN {v[x] : x \in 1..Len(v)} ELSE v
SameState(defs, st, got) == \A x \in 1..Len(defs) : defs[x].k = "redirect" \/ (/\ got[x].s = st.s[x] /\ got[x].c = (st.s[x] # 0)
                                                                       /\ Seen(defs[x], got[x].v) = st.v[x]
                                                                       /\ LET w == Shown(defs[x], st.v[x]) IN w = Open \/ got[x].w = w)
\* a container's next state and what the call answers: [st, ans]
Do(defs, st, odefs, ost) ==
    CASE Op.o = "set" -> [st |-> Put(defs, st, Op.x, Op.v, Op.src), ans |-> TRUE]
      [] Op.o = "name" -> (LET q == Named(defs, st, Op.n, Op.t, Op.src) IN [st |-> q.st, ans |-> q.r = Op.r])
      [] Op.o = "dict" -> [st |-> FromDict(defs, st, Op.kv, 1, Op.src), ans |-> TRUE]
      [] Op.o = "cmd" -> (LET q == CommandLine(defs, st, Op.args, 1) IN [st |-> q.st, ans |-> q.r = Op.r /\ (q.r = "" => Op.rest = SubSeq(Op.args, q.p, Len(Op.args)))])
      [] Op.o = "reset" -> [st |-> Reset(defs, st, Op.x), ans |-> TRUE]
      [] Op.o = "resetall" -> [st |-> ResetAll(defs, st), ans |-> TRUE]
      [] Op.o = "copy" -> [st |-> CopyInto(defs, st, odefs, ost), ans |-> TRUE]
      [] Op.o = "help" -> [st |-> st, ans |-> HelpOK(defs, Op.lines)]
Init == ci = 1 /\ i = 1 /\ A = Fresh(Cases[1].a) /\ B = Fresh(Cases[1].b) /\ verdict = ""
Judge(q, defs, got) == IF ~q.ans THEN "answer" ELSE IF ~SameState(defs, q.st, got) THEN "state" ELSE ""
Step == /\ i <= Len(C.ops)
        /\ IF Op.c = "a" THEN LET q == Do(C.a, A, C.b, B) IN A' = q.st /\ UNCHANGED B /\ verdict' = Judge(q, C.a, Op.got)
           ELSE LET q == Do(C.b, B, C.a, A) IN B' = q.st /\ UNCHANGED A /\ verdict' = Judge(q, C.b, Op.got)
        /\ i' = i + 1 /\ UNCHANGED ci
NextCase == i > Len(C.ops) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ A' = Fresh(Cases[ci + 1].a) /\ B' = Fresh(Cases[ci + 1].b) /\ verdict' = ""
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
Agrees == verdict = ""
=============================================================================
