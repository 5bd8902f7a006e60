----------------------------- MODULE VisFiles -----------------------------
(* The state file of vis and its temporary, through any history of runs that *)
(* are killed at any operation on them, with the world around them changing  *)
(* in between (a newer portal file, a truncated state file, another          *)
(* -visdist).  A file holds nothing, part of a state, or a whole one.        *)
(* Recorded histories are replayed; a run may only say it resumed where the  *)
(* specification finds a whole, current state for the same distance limit.   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES ci, i, vis, tmp, dist, writing, lie
vars == <<ci, i, vis, tmp, dist, writing, lie>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Ev == Cases[ci].ev[i]
Absent == [what |-> "none", dist |-> 0, old |-> FALSE]
Clean == vis = Absent /\ tmp = Absent /\ dist = 0 /\ writing = FALSE /\ lie = FALSE
Init == ci = 1 /\ i = 1 /\ Clean
\* opening the temporary empties it; whatever reaches it is part of a state until the next operation shows it was closed
Part == [what |-> "part", dist |-> dist, old |-> FALSE]
Whole == [what |-> "full", dist |-> dist, old |-> FALSE]
Closed == IF writing THEN Whole ELSE tmp
Usable(f) == f.what = "full" /\ ~f.old /\ f.dist = dist
Do == CASE Ev.t = "start" -> dist' = Ev.dist /\ writing' = FALSE /\ UNCHANGED <<vis, tmp, lie>>
        [] Ev.t = "open" -> tmp' = Part /\ writing' = TRUE /\ UNCHANGED <<vis, dist, lie>>
        [] Ev.t = "write" -> UNCHANGED <<vis, tmp, dist, writing, lie>>
        [] Ev.t = "remove" -> vis' = Absent /\ tmp' = Closed /\ writing' = FALSE /\ UNCHANGED <<dist, lie>>
        [] Ev.t = "rename" -> vis' = Closed /\ tmp' = Absent /\ writing' = FALSE /\ UNCHANGED <<dist, lie>>
        \* the operation at which the run was killed: only what came before it counts
        [] Ev.t = "die" -> tmp' = (IF writing /\ Ev.o \in {"remove", "rename", "none"} THEN Whole ELSE tmp) /\ writing' = FALSE /\ UNCHANGED <<vis, dist, lie>>
        [] Ev.t = "end" -> tmp' = Closed /\ writing' = FALSE /\ UNCHANGED <<vis, dist, lie>>
        [] Ev.t = "resumed" -> lie' = ~Usable(vis) /\ UNCHANGED <<vis, tmp, dist, writing>>
        [] Ev.t = "fresh" -> UNCHANGED <<vis, tmp, dist, writing, lie>>
        [] Ev.t = "touch" -> vis' = [vis EXCEPT !.old = (vis.what # "none")] /\ tmp' = [tmp EXCEPT !.old = (tmp.what # "none")] /\ UNCHANGED <<dist, writing, lie>>
        [] Ev.t = "truncate" -> vis' = (IF vis.what = "none" THEN vis ELSE [vis EXCEPT !.what = "part"]) /\ UNCHANGED <<tmp, dist, writing, lie>>
Next == \/ i <= Len(Cases[ci].ev) /\ Do /\ i' = i + 1 /\ UNCHANGED ci
        \/ i > Len(Cases[ci].ev) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ vis' = Absent /\ tmp' = Absent /\ dist' = 0 /\ writing' = FALSE /\ lie' = FALSE
Spec == Init /\ [][Next]_vars
ResumesOnlyWhatIsGood == ~lie
=============================================================================
