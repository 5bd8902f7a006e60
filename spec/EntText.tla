------------------------------ MODULE EntText ------------------------------
(* A parser walked through a text by any sequence of calls, entity lists     *)
(* read and written, and dictionaries changed by any sequence of operations: *)
(* the machine makes each step by Tokens.tla and compares it with what the   *)
(* repository's parser and dictionary did.                                   *)
EXTENDS Tokens, Json, IOUtils, TLC
VARIABLES ci, i, pos, line, stack, dict, moved, verdict
vars == <<ci, i, pos, line, stack, dict, moved, verdict>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
C == Cases[ci]
Fresh == pos = 1 /\ line = 1 /\ stack = <<>> /\ dict = <<>> /\ moved = FALSE /\ verdict = ""
Init == ci = 1 /\ i = 1 /\ Fresh
Op == C.ops[i]

\* ------------------------------------------------------------- parser walk
\* a recorded call: f flags (or -1 push, -2 pop, -3 at end), x threw, r returned, t token, q quoted, l line
SameCall(r) == IF r.err = "undef" THEN TRUE
               ELSE IF r.err # "" THEN Op.x
               ELSE ~Op.x /\ Op.r = r.ret /\ (r.ret => Op.t = r.tok /\ Op.q = r.quoted) /\ (C.nolines \/ Op.l = (IF PEEK(Op.f) THEN line ELSE r.line))
Walk == /\ C.t = "t"
        /\ IF Op.f = -1 THEN stack' = Append(stack, <<pos, line>>) /\ UNCHANGED <<pos, line, verdict>> /\ i' = i + 1
           ELSE IF Op.f = -2 THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ pos' = stack[Len(stack)][1] /\ line' = stack[Len(stack)][2] /\ UNCHANGED verdict /\ i' = i + 1
           ELSE IF Op.f = -3 THEN verdict' = (IF Op.r = (pos > Len(C.text)) THEN "" ELSE "at end") /\ UNCHANGED <<pos, line, stack>> /\ i' = i + 1
           ELSE LET r == Token(C.text, pos, line, Op.f)
                IN /\ verdict' = IF SameCall(r) THEN "" ELSE "token"
                   /\ pos' = IF PEEK(Op.f) THEN pos ELSE r.pos
                   /\ line' = IF PEEK(Op.f) THEN line ELSE r.line
                   /\ i' = IF r.err # "" \/ Op.x THEN Len(C.ops) + 1 ELSE i + 1
                   /\ UNCHANGED stack
        /\ UNCHANGED <<dict, moved>>

\* ------------------------------------------------------------ entity lists
Read == /\ C.t = "e"
        /\ LET r == EntitiesOf(C.text)
               b == EntitiesOf(C.written)
           IN verdict' = CASE r[2] = "undef" -> ""
                           [] r[2] = "bad" -> IF C.x THEN "" ELSE "malformed text was accepted"
                           [] OTHER -> IF C.x THEN "good text was refused"
                                       ELSE IF C.ents # r[1] THEN "entities"
                                       ELSE IF C.written # Written(r[1], 1) THEN "written text"
                                       ELSE IF b[2] = "undef" THEN ""
                                       ELSE IF C.backx # (b[2] # "") THEN "reading back"
                                       ELSE IF ~C.backx /\ C.back # b[1] THEN "entities read back"
                                       ELSE IF RoundTrips(r[1]) /\ (C.backx \/ C.back # C.ents) THEN "not the same after reading back"
                                       ELSE ""
        /\ i' = Len(C.ops) + 1 /\ UNCHANGED <<pos, line, stack, dict, moved>>

\* ------------------------------------------------------------- dictionaries
Has(k) == \E x \in 1..Len(dict) : dict[x][1] = k
Get(k) == IF Has(k) THEN dict[CHOOSE x \in 1..Len(dict) : dict[x][1] = k][2] ELSE <<>>
Without(k) == SelectSeq(dict, LAMBDA kv : kv[1] # k)
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_, _, _)
Digits(s, p, acc) == IF p > Len(s) \/ ~Digit(s[p]) THEN <<acc, p>> ELSE Digits(s, p + 1, 10 * acc + s[p] - 48)
RECURSIVE SkipS(_, _)
SkipS(s, p) == IF p <= Len(s) /\ SpaceIn(s[p]) THEN SkipS(s, p + 1) ELSE p
Sign(s, p) == IF p <= Len(s) /\ s[p] = 45 THEN -1 ELSE 1
AfterSign(s, p) == IF p <= Len(s) /\ s[p] \in {43, 45} THEN p + 1 ELSE p
IntOf(s) == LET p == SkipS(s, 1) IN Sign(s, p) * Digits(s, AfterSign(s, p), 0)[1]
\* a number at p in eighths (fractions are .5, .25, .75, .125): <<found, value, next>>
Frac(s, p) == IF p <= Len(s) /\ s[p] = 46 THEN LET d == Digits(s, p + 1, 0)
                                                   n == d[2] - p - 1
                                               IN <<(8 * d[1]) \div (CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] OTHER -> 1000), d[2]>>
              ELSE <<0, p>>
Number(s, p0) == LET p == SkipS(s, p0)
                     a == AfterSign(s, p)
                     d == Digits(s, a, 0)
                     f == Frac(s, d[2])
                 IN IF d[2] = a THEN <<FALSE, 0, p>> ELSE <<TRUE, Sign(s, p) * (8 * d[1] + f[1]), f[2]>>
FloatOf(s) == Number(s, 1)[2]
VecOf(s) == LET a == Number(s, 1)
                b == Number(s, a[3])
                c == Number(s, b[3])
            IN IF ~a[1] THEN <<0, 0, 0, 0>> ELSE IF ~b[1] THEN <<1, a[2], 0, 0>> ELSE IF ~c[1] THEN <<2, a[2], b[2], 0>> ELSE <<3, a[2], b[2], c[2]>>
Dict == /\ C.t = "d"
        /\ CASE Op.o = "s" -> dict' = SetKey(dict, Op.k, Op.v) /\ UNCHANGED <<moved, verdict>>
             [] Op.o = "r" -> dict' = Without(Op.k) /\ UNCHANGED <<moved, verdict>>
             [] Op.o = "n" -> (IF Has(Op.k) THEN dict' = Append(Without(Op.k), <<Op.v, Get(Op.k)>>) /\ moved' = TRUE ELSE UNCHANGED <<dict, moved>>) /\ UNCHANGED verdict
             [] Op.o = "g" -> verdict' = (IF Op.v = Get(Op.k) THEN "" ELSE "get") /\ UNCHANGED <<dict, moved>>
             [] Op.o = "h" -> verdict' = (IF Op.v = <<IF Has(Op.k) THEN 1 ELSE 0>> THEN "" ELSE "has") /\ UNCHANGED <<dict, moved>>
             [] Op.o = "i" -> verdict' = (IF Op.v = <<IntOf(Get(Op.k))>> THEN "" ELSE "get_int") /\ UNCHANGED <<dict, moved>>
             [] Op.o = "f" -> verdict' = (IF Op.v = <<FloatOf(Get(Op.k))>> THEN "" ELSE "get_float") /\ UNCHANGED <<dict, moved>>
             [] Op.o = "v" -> verdict' = (IF Op.v = VecOf(Get(Op.k)) THEN "" ELSE "get_vector") /\ UNCHANGED <<dict, moved>>
             \* the dictionary at the end: in order, unless something was renamed
             [] Op.o = "all" -> verdict' = (IF Op.v = dict \/ (moved /\ Len(Op.v) = Len(dict) /\ {Op.v[x] : x \in 1..Len(Op.v)} = {dict[x] : x \in 1..Len(dict)}) THEN "" ELSE "dictionary")
                               /\ UNCHANGED <<dict, moved>>
        /\ i' = i + 1 /\ UNCHANGED <<pos, line, stack>>
Step == i <= Len(C.ops) /\ (Walk \/ Read \/ Dict) /\ UNCHANGED ci
NextCase == i > Len(C.ops) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ pos' = 1 /\ line' = 1 /\ stack' = <<>> /\ dict' = <<>> /\ moved' = FALSE /\ verdict' = ""
Next == Step \/ NextCase
Spec == Init /\ [][Next]_vars
Agrees == verdict = ""
=============================================================================
