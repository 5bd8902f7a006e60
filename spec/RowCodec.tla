----------------------------- MODULE RowCodec -----------------------------
(* Rows of bytes, the run-length coding games read (a zero byte is followed  *)
(* by how many zero bytes it stands for), and what the repository's two      *)
(* routines did with them.  Cases come in blocks of rows.                    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES ci, i
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
RECURSIVE Expand(_, _, _)
Expand(coded, pos, acc) == IF pos > Len(coded) THEN acc
    ELSE IF coded[pos] # 0 THEN Expand(coded, pos + 1, Append(acc, coded[pos]))
    ELSE IF pos = Len(coded) THEN Append(acc, -1)
    ELSE Expand(coded, pos + 2, acc \o [j \in 1..coded[pos + 1] |-> 0])
B == Cases[ci][i]
Guard == [j \in 1..16 |-> 165]
Init == ci = 1 /\ i = 1
Next == IF i < Len(Cases[ci]) THEN i' = i + 1 /\ ci' = ci ELSE ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1
Spec == Init /\ [][Next]_<<ci, i>>
\* the coded form stands for exactly the row, and reading it gives the row and writes nothing behind it
Coded == B.t = "c" => Expand(B.coded, 1, <<>>) = B.row
ReadBack == B.t = "c" => B.back = B.row \o Guard
\* every coded form, not only the shortest, is read as what it stands for
ReadAny == B.t = "d" => B.back = Expand(B.coded, 1, <<>>) \o Guard
\* something that is not the coding of a row never makes the reader write behind it
Contained == B.t = "x" => Len(B.back) = B.n + 16 /\ SubSeq(B.back, B.n + 1, B.n + 16) = Guard
=============================================================================
