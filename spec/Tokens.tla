------------------------------- MODULE Tokens -------------------------------
(* The grammar of map, entity and settings text: white space, comments,      *)
(* quoted strings with their escapes, bare words.  Texts are sequences of    *)
(* bytes; the end of the text and a zero byte both end it.                   *)
(* What a bare word is with bytes above 127 is left open ("undef").          *)
EXTENDS Integers, Sequences

NL == 10
CR == 13
QUOTE == 34
SLASH == 47
SEMI == 59
BACK == 92
SAMELINE(f) == f % 2 = 1
COMMENT(f) == (f \div 2) % 2 = 1
OPTIONAL(f) == (f \div 4) % 2 = 1
PEEK(f) == (f \div 8) % 2 = 1

At(t, p) == IF p > Len(t) THEN 0 ELSE t[p]
Space(c) == c <= 32 /\ c # 0
Res(ret, err, tok, quoted, p, line) == [ret |-> ret, err |-> err, tok |-> tok, quoted |-> quoted, pos |-> p, line |-> line]
None(p, line) == Res(FALSE, "", <<>>, FALSE, p, line)
Fail(why) == Res(FALSE, why, <<>>, FALSE, 0, 0)

\* the position of the first byte at or after p that is not white space; with `stop`, line ends are not passed
RECURSIVE Skip(_, _, _)
Skip(t, p, stop) == IF ~Space(At(t, p)) \/ (stop /\ At(t, p) = NL) THEN p ELSE Skip(t, p + 1, stop)
Lines(t, p, q) == LET RECURSIVE C(_, _)
                      C(i, n) == IF i >= q THEN n ELSE C(i + 1, IF t[i] = NL THEN n + 1 ELSE n)
                  IN C(p, 0)
RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF At(t, p) = 0 \/ At(t, p) = NL THEN p ELSE LineEnd(t, p + 1)
IsComment(t, p) == At(t, p) = SEMI \/ (At(t, p) = SLASH /\ At(t, p + 1) = SLASH)
RECURSIVE WordEnd(_, _)
WordEnd(t, p) == IF At(t, p) <= 32 THEN p ELSE WordEnd(t, p + 1)
\* bytes that a backslash makes part of a pair; before any other byte it stands for itself
Paired == {110, 39, 114, 116, 92, 98}
\* the position of the closing quote, 0 if there is none
RECURSIVE Close(_, _)
Close(t, p) == IF At(t, p) = 0 THEN 0
               ELSE IF t[p] = QUOTE THEN p
               ELSE IF t[p] # BACK THEN Close(t, p + 1)
               ELSE IF At(t, p + 1) \in Paired \/ (At(t, p + 1) = QUOTE /\ At(t, p + 2) \notin {CR, NL}) THEN Close(t, p + 2)
               ELSE Close(t, p + 1)
High(t, p, q) == \E i \in p..(q - 1) : t[i] > 127

RECURSIVE Token(_, _, _, _)
Token(t, p0, line0, f) ==
    LET p == Skip(t, p0, SAMELINE(f) \/ OPTIONAL(f))
        line == line0 + Lines(t, p0, p)
        bound == IF OPTIONAL(f) THEN None(p, line) ELSE IF SAMELINE(f) THEN Fail("line") ELSE None(p, line)
    IN IF At(t, p) \in {0, NL} THEN bound
       ELSE IF IsComment(t, p)
       THEN IF COMMENT(f) THEN LET q == LineEnd(t, p) IN Res(TRUE, IF High(t, p, q) THEN "undef" ELSE "", SubSeq(t, p, q - 1), FALSE, q, line)
            ELSE IF OPTIONAL(f) \/ SAMELINE(f) THEN bound
            ELSE LET q == LineEnd(t, p) IN IF At(t, q) = 0 THEN None(q, line) ELSE Token(t, q + 1, line + 1, f)
       ELSE IF COMMENT(f) THEN (IF t[p] > 127 THEN Fail("undef") ELSE None(p, line))
       ELSE IF t[p] = QUOTE
       THEN LET q == Close(t, p + 1)
            IN IF q = 0 THEN Fail("quote") ELSE Res(TRUE, "", SubSeq(t, p + 1, q - 1), TRUE, q + 1, line)
       ELSE LET q == WordEnd(t, p)
            IN Res(TRUE, IF High(t, p, q) THEN "undef" ELSE "", SubSeq(t, p, q - 1), FALSE, q, line)

\* all tokens of a text: <<tokens, error>>
RECURSIVE Tokens(_, _, _)
Tokens(t, p, acc) == LET r == Token(t, p, 1, 0)
                     IN IF r.err # "" THEN <<acc, r.err>> ELSE IF ~r.ret THEN <<acc, "">> ELSE Tokens(t, r.pos, Append(acc, r.tok))

\* ---------------------------------------------------------- entity lists
OPEN == <<123>>
CLOSE == <<125>>
SpaceIn(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ SpaceIn(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ SpaceIn(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
SetKey(e, k, v) == IF \E i \in 1..Len(e) : e[i][1] = k THEN [i \in 1..Len(e) |-> IF e[i][1] = k THEN <<k, v>> ELSE e[i]] ELSE Append(e, <<k, v>>)
\* <<entities, fine?>>; st: "out", "key"
RECURSIVE Ents(_, _, _, _)
Ents(tk, i, cur, acc) ==
    IF cur.in = FALSE
    THEN IF i > Len(tk) THEN <<acc, TRUE>>
         ELSE IF tk[i] # OPEN THEN <<acc, FALSE>>
         ELSE Ents(tk, i + 1, [in |-> TRUE, e |-> <<>>], acc)
    ELSE IF i > Len(tk) THEN <<acc, FALSE>>
    ELSE IF tk[i] = CLOSE THEN Ents(tk, i + 1, [in |-> FALSE, e |-> <<>>], Append(acc, cur.e))
    ELSE IF i + 1 > Len(tk) \/ tk[i + 1] = CLOSE THEN <<acc, FALSE>>
    ELSE Ents(tk, i + 2, [in |-> TRUE, e |-> SetKey(cur.e, Trim(tk[i]), tk[i + 1])], acc)
\* <<entities, "" | "bad" | "undef">>
EntitiesOf(t) == LET a == Tokens(t, 1, <<>>)
                 IN IF a[2] = "undef" THEN <<<<>>, "undef">>
                    ELSE IF a[2] # "" THEN <<<<>>, "bad">>
                    ELSE LET r == Ents(a[1], 1, [in |-> FALSE, e |-> <<>>], <<>>) IN IF r[2] THEN <<r[1], "">> ELSE <<<<>>, "bad">>
Line(kv) == <<QUOTE>> \o kv[1] \o <<QUOTE, 32, QUOTE>> \o kv[2] \o <<QUOTE, NL>>
RECURSIVE Pairs(_, _)
Pairs(e, i) == IF i > Len(e) THEN <<>> ELSE Line(e[i]) \o Pairs(e, i + 1)
RECURSIVE Written(_, _)
Written(es, i) == IF i > Len(es) THEN <<>> ELSE <<123, NL>> \o Pairs(es[i], 1) \o <<125, NL>> \o Written(es, i + 1)
\* a key or value that its quoted form stands for: no bare quote, no dangling backslash
RECURSIVE Quotable(_, _)
Quotable(s, p) == IF p > Len(s) THEN TRUE
                  ELSE IF s[p] \in {QUOTE, 0} THEN FALSE
                  ELSE IF s[p] # BACK THEN Quotable(s, p + 1)
                  ELSE IF p = Len(s) THEN FALSE
                  ELSE IF s[p + 1] \in Paired \/ (s[p + 1] = QUOTE /\ (p + 2 > Len(s) \/ s[p + 2] \notin {CR, NL})) THEN Quotable(s, p + 2)
                  ELSE Quotable(s, p + 1)
RoundTrips(es) == \A i \in 1..Len(es) : \A j \in 1..Len(es[i]) : es[i][j][1] # CLOSE /\ es[i][j][2] # CLOSE /\ Quotable(es[i][j][1], 1) /\ Quotable(es[i][j][2], 1)
=============================================================================
