------------------------------ MODULE VisBits ------------------------------
(* The two run-length codings of visibility rows: the one of the lump that   *)
(* games read (only zero bytes are counted) and the one of the state file    *)
(* (0 and 255 are counted, and a row that does not shrink is stored as is).  *)
EXTENDS Integers, Sequences, FiniteSets

Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
BitsOf(b) == {k \in 0..7 : (b \div Pow2(k)) % 2 = 1}
RowBytes(n) == (n + 7) \div 8

\* game rows: <<set of bits, position after the row>>; position -1: the row left the data or its length
RECURSIVE GameRow(_, _, _, _, _)
GameRow(data, pos, have, want, acc) ==
    IF have = want THEN <<acc, pos>>
    ELSE IF pos > Len(data) THEN <<acc, -1>>
    ELSE LET b == data[pos] IN
         IF b # 0 THEN GameRow(data, pos + 1, have + 1, want, acc \cup {8 * have + k : k \in BitsOf(b)})
         ELSE IF pos + 1 > Len(data) THEN <<acc, -1>>
         ELSE LET r == data[pos + 1] IN
              IF r = 0 \/ have + r > want THEN <<acc, -1>>
              ELSE GameRow(data, pos + 2, have + r, want, acc)

\* state file rows of `len` bytes for `want` bytes of bits
RECURSIVE StateRow(_, _, _, _, _)
StateRow(data, pos, have, want, acc) ==
    IF have = want THEN acc
    ELSE LET b == data[pos] IN
         IF b # 0 /\ b # 255 THEN StateRow(data, pos + 1, have + 1, want, acc \cup {8 * have + k : k \in BitsOf(b)})
         ELSE LET r == data[pos + 1] IN
              StateRow(data, pos + 2, have + r, want, IF b = 0 THEN acc ELSE acc \cup {8 * have + k : k \in 0..(8 * r - 1)})
RECURSIVE RawRow(_, _, _, _, _)
RawRow(data, pos, have, want, acc) ==
    IF have = want THEN acc
    ELSE RawRow(data, pos + 1, have + 1, want, acc \cup {8 * have + k : k \in BitsOf(data[pos])})
StateBits(data, pos, len, want) == IF len = 0 THEN {} ELSE IF len < want THEN StateRow(data, pos, 0, want, {}) ELSE RawRow(data, pos, 0, want, {})

U32(data, pos) == data[pos] + 256 * (data[pos + 1] + 256 * (data[pos + 2] + 256 * data[pos + 3]))

\* one portal of a state file at pos: status, mightsee, visbits, the two counts, next position
StatePortal(data, pos, nc) ==
    LET w == RowBytes(nc)
        ml == U32(data, pos + 4)
        vl == U32(data, pos + 8)
    IN [status |-> U32(data, pos), nmight |-> U32(data, pos + 12), ncan |-> U32(data, pos + 16),
        might |-> StateBits(data, pos + 20, ml, w) \cap (0..(nc - 1)),
        vis |-> StateBits(data, pos + 20 + ml, vl, w) \cap (0..(nc - 1)), next |-> pos + 20 + ml + vl]
=============================================================================
