---------------------------- MODULE ProgressMC ----------------------------
(* Every interleaving of a few workers going through parallel loops: each    *)
(* takes the next index, takes the next count, reports it, runs the body;    *)
(* when all are done the caller reports the end, or, when a body threw,      *)
(* gives the timer up and passes the exception on; then the next loop runs.  *)
EXTENDS Progress, TLC
CONSTANTS Workers, N, Loops, Throws, \* Throws: indices whose body throws in the first loop
          Guard, Waits \* the design: "higher" / "other" value shown; whether a final call really waits
VARIABLES pc, idx, cnt, next, count, ran, shown, ends, loop, threw, caught, inside
vars == <<pvars, pc, idx, cnt, next, count, ran, shown, ends, loop, threw, caught, inside>>
Caller == 0
Init == /\ Start /\ pc = [w \in Workers \cup {Caller} |-> "idle"]
        /\ idx = [w \in Workers |-> -1] /\ cnt = [w \in Workers |-> -1]
        /\ next = 0 /\ count = 0 /\ ran = [k \in 0..(N - 1) |-> 0] /\ shown = <<>> /\ ends = 0 /\ loop = 1 /\ threw = {} /\ caught = -1 /\ inside = {}
Take(w) == /\ pc[w] = "idle" /\ pc[Caller] = "idle" /\ next < N /\ threw = {}
           /\ idx' = [idx EXCEPT ![w] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![w] = "count"]
           /\ UNCHANGED <<pvars, cnt, count, ran, shown, ends, loop, threw, caught, inside>>
Count(w) == /\ pc[w] = "count" /\ cnt' = [cnt EXCEPT ![w] = count] /\ count' = count + 1 /\ pc' = [pc EXCEPT ![w] = "report"]
            /\ UNCHANGED <<pvars, idx, next, ran, shown, ends, loop, threw, caught, inside>>
\* the weaker design shows every value that differs from the last one
DoEnter(t, c, m) == /\ IF Guard = "higher" THEN Enter(t, c, m)
                       ELSE /\ Free /\ holder' = t /\ running' = (c # m)
                            /\ last' = (IF c = m THEN -1 ELSE Percent(c, m))
                    /\ shown' = IF c # m /\ (IF Guard = "higher" THEN Shows(c, m, TRUE) = "pct" ELSE Percent(c, m) # Shown) THEN Append(shown, Percent(c, m)) ELSE shown
Report(w) == /\ pc[w] = "report"
             /\ \/ /\ Free /\ DoEnter(w, cnt[w], N) /\ pc' = [pc EXCEPT ![w] = "in"] /\ inside' = inside \cup {w}
                \/ /\ ~Free /\ pc' = [pc EXCEPT ![w] = "body"] /\ UNCHANGED <<pvars, shown, inside>>
             /\ UNCHANGED <<idx, cnt, next, count, ran, ends, loop, threw, caught>>
Out(w) == /\ pc[w] = "in" /\ Leave(w) /\ pc' = [pc EXCEPT ![w] = "body"] /\ inside' = inside \ {w}
          /\ UNCHANGED <<idx, cnt, next, count, ran, shown, ends, loop, threw, caught>>
Body(w) == /\ pc[w] = "body" /\ pc' = [pc EXCEPT ![w] = "idle"] /\ ran' = [ran EXCEPT ![idx[w]] = @ + 1]
           /\ threw' = IF loop = 1 /\ idx[w] \in Throws THEN threw \cup {idx[w]} ELSE threw
           /\ UNCHANGED <<pvars, idx, cnt, next, count, shown, ends, loop, caught, inside>>
Quiet == \A w \in Workers : pc[w] = "idle"
Finish == /\ pc[Caller] = "idle" /\ Quiet /\ next = N /\ threw = {} /\ loop <= Loops
          /\ (DoEnter(Caller, N, N) \/ (~Waits /\ ~Free /\ running' = FALSE /\ last' = -1 /\ UNCHANGED <<holder, shown>>))
          /\ ends' = ends + 1 /\ pc' = [pc EXCEPT ![Caller] = "in"] /\ inside' = inside \cup {Caller}
          /\ UNCHANGED <<idx, cnt, next, count, ran, loop, threw, caught>>
Fail == /\ pc[Caller] = "idle" /\ Quiet /\ threw # {} /\ Cancel /\ caught' \in threw
        /\ pc' = [pc EXCEPT ![Caller] = "left"]
        /\ UNCHANGED <<idx, cnt, next, count, ran, shown, ends, loop, threw, inside>>
CallerOut == /\ pc[Caller] = "in" /\ Leave(Caller) /\ pc' = [pc EXCEPT ![Caller] = "left"] /\ inside' = inside \ {Caller}
             /\ UNCHANGED <<idx, cnt, next, count, ran, shown, ends, loop, threw, caught>>
\* a straggler of another task may be inside at any time
Other == 99
Intrude == /\ Free /\ holder' = Other /\ inside' = inside \cup {Other}
           /\ UNCHANGED <<running, last, pc, idx, cnt, next, count, ran, shown, ends, loop, threw, caught>>
Extrude == /\ Other \in inside /\ Leave(Other) /\ inside' = inside \ {Other}
           /\ UNCHANGED <<pc, idx, cnt, next, count, ran, shown, ends, loop, threw, caught>>
Again == /\ pc[Caller] = "left" /\ loop < Loops /\ loop' = loop + 1 /\ pc' = [pc EXCEPT ![Caller] = "idle"]
         /\ next' = 0 /\ count' = 0 /\ ran' = [k \in 0..(N - 1) |-> 0] /\ shown' = <<>> /\ ends' = 0 /\ threw' = {} /\ caught' = -1
         /\ UNCHANGED <<pvars, idx, cnt, inside>>
Next == (\E w \in Workers : Take(w) \/ Count(w) \/ Report(w) \/ Out(w) \/ Body(w)) \/ Finish \/ Fail \/ CallerOut \/ Again \/ Intrude \/ Extrude
Spec == Init /\ [][Next]_vars /\ WF_vars(CallerOut) /\ WF_vars(Extrude) /\ SF_vars(Finish) /\ SF_vars(Fail) /\ WF_vars(Again)
        /\ \A w \in Workers : WF_vars(Take(w) \/ Count(w) \/ Out(w) \/ Body(w)) /\ WF_vars(Report(w))

OneInside == Cardinality(inside) <= 1 /\ (inside # {} => holder \in inside)
Forward == \A k \in 1..(Len(shown) - 1) : shown[k] < shown[k + 1]
Once == \A k \in 0..(N - 1) : ran[k] <= 1
EndsOnce == ends <= 1 /\ (ends = 1 => \A k \in 0..(N - 1) : ran[k] = 1)
Left == pc[Caller] = "left" => IF threw = {} THEN ends = 1 /\ caught = -1 ELSE ends = 0 /\ caught \in threw
Zero == shown # <<>> => shown[1] = 0 \/ N > 100 \/ Cardinality(Workers) > 1
Completes == <>(pc[Caller] = "left" /\ loop = Loops)
=============================================================================
