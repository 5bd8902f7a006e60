------------------------------ MODULE Numbers ------------------------------
(* Numbers read from the front of a text (a sequence of bytes) the way the   *)
(* C library does: leading white space, sign, digits, fraction, exponent.    *)
(* Fractional values are kept in eighths; integers saturate at 32 bits.      *)
EXTENDS Integers, Sequences
MaxInt == 2147483647
MinInt == -2147483647 - 1
IsDigit(c) == c >= 48 /\ c <= 57
IsBlank(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE SkipBlank(_, _)
SkipBlank(s, p) == IF p <= Len(s) /\ IsBlank(s[p]) THEN SkipBlank(s, p + 1) ELSE p
Ch(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
\* <<value, saturated?, next>>
RECURSIVE DigitRun(_, _, _, _)
DigitRun(s, p, acc, sat) == IF ~IsDigit(Ch(s, p)) THEN <<acc, sat, p>>
                            ELSE IF sat \/ acc > 214748363 THEN (IF ~sat /\ acc = 214748364 /\ s[p] <= 55 THEN DigitRun(s, p + 1, 10 * acc + s[p] - 48, FALSE) ELSE DigitRun(s, p + 1, acc, TRUE))
                            ELSE DigitRun(s, p + 1, 10 * acc + s[p] - 48, FALSE)
\* an integer: <<found, value clamped to 32 bits, it needed clamping>>
IntAt(s) == LET p == SkipBlank(s, 1)
                neg == Ch(s, p) = 45
                a == IF Ch(s, p) \in {43, 45} THEN p + 1 ELSE p
                d == DigitRun(s, a, 0, FALSE)
                big == d[2] /\ ~(neg /\ SubSeq(s, a, d[3] - 1) = <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>)
            IN IF d[3] = a THEN <<FALSE, 0, FALSE>> ELSE <<TRUE, IF d[2] THEN (IF neg THEN MinInt ELSE MaxInt) ELSE IF neg THEN 0 - d[1] ELSE d[1], big>>
\* decimal text of an integer
RECURSIVE Dec(_)
Dec(n) == IF n = MinInt THEN Dec(-214748364) \o <<56>> ELSE IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Huge == 1000000000
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Inf3(s, p) == Lower(Ch(s, p)) = 105 /\ Lower(Ch(s, p + 1)) = 110 /\ Lower(Ch(s, p + 2)) = 102
\* a fractional number: <<found, eighths (Huge is infinity)>>
RealAt(s) == LET p == SkipBlank(s, 1)
                 sg == IF Ch(s, p) = 45 THEN -1 ELSE 1
                 a == IF Ch(s, p) \in {43, 45} THEN p + 1 ELSE p
                 d == DigitRun(s, a, 0, FALSE)
                 f == IF Ch(s, d[3]) = 46 THEN DigitRun(s, d[3] + 1, 0, FALSE) ELSE <<0, FALSE, d[3]>>
                 nf == IF Ch(s, d[3]) = 46 THEN f[3] - d[3] - 1 ELSE 0
                 has == d[3] > a \/ nf > 0
                 m == 8 * d[1] + (8 * f[1]) \div Pow10(nf)
                 eneg == Ch(s, f[3] + 1) = 45
                 ea == IF Ch(s, f[3] + 1) \in {43, 45} THEN f[3] + 2 ELSE f[3] + 1
                 e == IF Lower(Ch(s, f[3])) = 101 /\ IsDigit(Ch(s, ea)) THEN DigitRun(s, ea, 0, FALSE)[1] ELSE 0
             IN IF Inf3(s, a) THEN <<TRUE, sg * Huge>>
                ELSE IF ~has THEN <<FALSE, 0>>
                ELSE <<TRUE, sg * (IF eneg THEN m \div Pow10(e) ELSE m * Pow10(e))>>
=============================================================================
