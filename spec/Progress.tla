----------------------------- MODULE Progress -----------------------------
(* The progress display: one call at a time is inside; an ordinary call that *)
(* finds another inside leaves at once, a final one (count = max) waits.     *)
(* Inside, a value is shown only if it is higher than the one shown last     *)
(* since the timer started; a final call stops the timer and shows the       *)
(* completion line; a cancelled task stops it and shows nothing.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES holder, running, last
pvars == <<holder, running, last>>
Nobody == -1
Endless == -1 \* the max of a task of unknown length

Free == holder = Nobody
Shown == IF running THEN last ELSE -1
Percent(c, m) == (100 * c) \div m
\* what a call that gets in shows: "pct" a value, "spin" something (but only every 100 ms), "done", "no" nothing
Shows(c, m, clock) == IF c = m THEN (IF clock THEN "done" ELSE "no")
                      ELSE IF m = Endless THEN "spin"
                      ELSE IF Percent(c, m) > Shown THEN "pct" ELSE "no"
Timer(c, m) == IF c = m THEN running' = FALSE /\ last' = -1
               ELSE running' = TRUE /\ last' = IF m = Endless THEN Shown ELSE IF Percent(c, m) > Shown THEN Percent(c, m) ELSE Shown
Enter(t, c, m) == Free /\ holder' = t /\ Timer(c, m)
Leave(t) == holder = t /\ holder' = Nobody /\ UNCHANGED <<running, last>>
Cancel == Free /\ running' = FALSE /\ last' = -1 /\ UNCHANGED holder
Start == holder = Nobody /\ running = FALSE /\ last = -1
=============================================================================
