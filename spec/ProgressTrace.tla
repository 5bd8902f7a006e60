--------------------------- MODULE ProgressTrace ---------------------------
(* Recorded behaviour of the progress display, the parallel loops, printing  *)
(* and the statistics, step by step against Progress.tla.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES holder, running, last, clock, wait, seen, ended, ok, ci, i
vars == <<holder, running, last, clock, wait, seen, ended, ok, ci, i>>
P == INSTANCE Progress
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Case == Cases[ci]
None == <<>>
Kind == Case.kind

\* ---- histories: an op is <<name, t, c, m, elapsed, hold, u>>, its record [res, events]
Op == Case.ops[i]
R == Case.records[i]
\* the events a call shows: a spin only every 100 ms, so it may or may not be there unless nothing ran before
Fits(ev, t, c, m, clk) == LET s == P!Shows(c, m, clk) IN
   IF s = "done" THEN ev = <<<<"done", IF m = P!Endless THEN -1 ELSE 100, t>>>>
   ELSE IF s = "pct" THEN ev = <<<<"pct", P!Percent(c, m), t>>>>
   ELSE IF s = "spin" THEN ev = <<<<"spin", -1, t>>>> \/ (ev = <<>> /\ running)
   ELSE ev = <<>>
HCall == LET t == Op[2] c == Op[3] m == Op[4] clk == Op[5] = 1 /\ clock IN
  /\ Op[1] = "call"
  /\ IF P!Free
     THEN \* a call that nothing holds leaves before the next one comes
          /\ holder' = (IF R.res = "held" THEN t ELSE P!Nobody) /\ P!Timer(c, m) /\ wait' = wait
          /\ ok' = (ok /\ Fits(R.events, t, c, m, clk) /\ R.res = IF Op[6] = 1 /\ R.events # <<>> THEN "held" ELSE "returned")
     ELSE /\ UNCHANGED <<holder, running, last>>
          /\ wait' = IF c = m THEN <<t, c, m, clk, Op[6]>> ELSE wait
          /\ ok' = (ok /\ R.events = <<>> /\ R.res = IF c = m THEN "waiting" ELSE "returned")
  /\ UNCHANGED clock
HRelease == LET t == Op[2] IN
  /\ Op[1] = "release" /\ UNCHANGED clock
  /\ IF wait = None
     THEN /\ P!Leave(t) /\ wait' = None /\ ok' = (ok /\ R.res = "returned" /\ R.events = <<<<"out", -1, t>>>>)
     ELSE \* leaving lets the waiting call in
          /\ holder' = (IF wait[5] = 1 /\ R.res = "held" THEN wait[1] ELSE P!Nobody) /\ running' = FALSE /\ last' = -1
          /\ wait' = None
          /\ LET s == IF wait[4] THEN <<<<"done", IF wait[3] = P!Endless THEN -1 ELSE 100, wait[1]>>>> ELSE <<>> IN
             ok' = (ok /\ holder = t /\ R.events = <<<<"out", -1, t>>>> \o s /\ R.res = IF s # <<>> /\ wait[5] = 1 THEN "held" ELSE "returned")
HMask == Op[1] = "mask" /\ clock' = (Op[2] = 1) /\ UNCHANGED <<holder, running, last, wait>> /\ ok' = (ok /\ R.events = <<>>)
History == /\ Kind = "history" /\ i <= Len(Case.ops) /\ (HCall \/ HRelease \/ HMask) /\ i' = i + 1 /\ UNCHANGED <<seen, ended, ci>>

\* ---- loops: Case.log is the merged sequence of <<"pct", v>>, <<"done", 100>>, <<"body", k>>
E == Case.log[i]
Values == {P!Percent(c, Case.n) : c \in 0..(Case.n - 1)}
LoopStep ==
  /\ UNCHANGED <<holder, clock, wait, ci>> /\ i' = i + 1
  /\ CASE E[1] = "pct" ->
          /\ last' = E[2] /\ running' = TRUE /\ UNCHANGED <<seen, ended>>
          \* higher than what was shown, a value of this loop, and not ahead of the work taken on
          /\ ok' = (ok /\ ended = 0 /\ E[2] > last /\ E[2] <= (100 * (Cardinality(seen) + Case.threads - 1)) \div Case.n
                       /\ \E c \in 0..(Case.n - 1) : P!Percent(c, Case.n) = E[2])
       [] E[1] = "body" ->
          /\ seen' = seen \cup {E[2]} /\ UNCHANGED <<last, running, ended>>
          /\ ok' = (ok /\ ended = 0 /\ E[2] \in Case.start..(Case.start + Case.n - 1) /\ E[2] \notin seen)
       [] E[1] = "done" ->
          /\ ended' = ended + 1 /\ last' = -1 /\ running' = FALSE /\ UNCHANGED seen
          /\ ok' = (ok /\ ended = 0 /\ Cardinality(seen) = Case.n /\ Case.throwers = <<>>)
       [] OTHER -> ok' = FALSE /\ UNCHANGED <<last, running, seen, ended>>
Throwers == {Case.throwers[k] : k \in 1..Len(Case.throwers)}
LoopEnd == IF Throwers = {} THEN ended = 1 /\ Case.caught = -1000000 /\ Case.others = 0
                /\ (Case.threads = 1 => {Case.log[k][2] : k \in {j \in 1..Len(Case.log) : Case.log[j][1] = "pct"}} = Values)
           ELSE ended = 0 /\ Case.caught \in Throwers \cap seen
                /\ (Case.threads = 1 => Cardinality(Throwers \cap seen) = 1)
Loop == Kind = "loop" /\ i <= Len(Case.log) /\ LoopStep

\* ---- prints: Case.chunks is what one channel received, cut into <<kind, t, i>>; line i of thread t must come if Want[t][i]
C == Case.chunks[i]
NextOf(t, k) == LET r == {j \in (k + 1)..Len(Case.want[t]) : Case.want[t][j] = 1} IN IF r = {} THEN 0 ELSE CHOOSE j \in r : \A j2 \in r : j <= j2
PrintStep ==
  /\ UNCHANGED <<holder, clock, wait, running, ci>> /\ i' = i + 1
  /\ CASE C[1] = "line" -> /\ seen' = [seen EXCEPT ![C[2]] = C[3]] /\ ok' = (ok /\ C[3] = NextOf(C[2], seen[C[2]])) /\ UNCHANGED <<last, ended>>
       [] C[1] = "pct" -> /\ last' = C[2] /\ ok' = (ok /\ C[2] > last /\ C[2] < 100 /\ ended = 0 /\ Case.clock = 1) /\ UNCHANGED <<seen, ended>>
       [] C[1] = "done" -> /\ ended' = ended + 1 /\ ok' = (ok /\ ended = 0 /\ Case.clock = 1 /\ \A t \in DOMAIN seen : NextOf(t, seen[t]) = 0) /\ UNCHANGED <<seen, last>>
       [] OTHER -> ok' = FALSE /\ UNCHANGED <<seen, last, ended>>
PrintEnd == (\A t \in DOMAIN seen : NextOf(t, seen[t]) = 0) /\ ended = Case.clock
PrintLine == Kind = "prints" /\ i <= Len(Case.chunks) /\ PrintStep

\* ---- statistics: one line each, in order, right-aligned to the widest number, digits grouped by commas
RECURSIVE Digits(_)
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Digits(v \div 10), 48 + (v % 10))
Grouped(v) == LET d == Digits(v) IN
   LET RECURSIVE G(_)
       G(k) == IF k > Len(d) THEN <<>> ELSE (IF k > 1 /\ (Len(d) - k + 1) % 3 = 0 THEN <<44>> ELSE <<>>) \o <<d[k]>> \o G(k + 1)
   IN G(1)
Printed(s) == s.count > 0 \/ s.zero = 1
Widths == {Len(Digits(s.count)) : s \in {Case.stats[k] : k \in {j \in 1..Len(Case.stats) : Printed(Case.stats[j]) /\ Case.stats[j].warn = 0}}}
Width == IF Widths = {} THEN 4 ELSE LET w == CHOOSE x \in Widths : \A y \in Widths : y <= x IN w + ((w - 1) \div 3) + 4
Pad(q, w) == [k \in 1..(IF w > Len(q) THEN w - Len(q) ELSE 0) |-> 32] \o q
LineOf(s) == (IF s.warn = 1 THEN <<87, 65, 82, 78, 73, 78, 71, 58, 32>> \o Grouped(s.count) ELSE Pad(Grouped(s.count), Width)) \o <<32>> \o s.name \o <<10>>
StatsHold == LET e == SelectSeq(Case.stats, LAMBDA s : Printed(s)) IN
   Len(e) = Len(Case.lines) /\ \A k \in 1..Len(e) : Case.lines[k] = LineOf(e[k])
Stat == Kind = "stats" /\ i = 1 /\ ok' = StatsHold /\ i' = 2 /\ UNCHANGED <<holder, running, last, clock, wait, seen, ended, ci>>

Begin(c) == IF Cases[c].kind = "prints" THEN [t \in 1..Len(Cases[c].want) |-> 0] ELSE {}
Init == P!Start /\ clock = TRUE /\ wait = None /\ ended = 0 /\ ok = TRUE /\ ci = 1 /\ i = 1 /\ seen = Begin(1)
Over == IF Kind = "history" THEN i > Len(Case.ops) ELSE IF Kind = "loop" THEN i > Len(Case.log) ELSE IF Kind = "prints" THEN i > Len(Case.chunks) ELSE i = 2
NextCase == /\ Over /\ ci < Len(Cases)
            /\ ci' = ci + 1 /\ i' = 1 /\ holder' = P!Nobody /\ running' = FALSE /\ last' = -1 /\ clock' = TRUE /\ wait' = None /\ ended' = 0 /\ ok' = TRUE
            /\ seen' = Begin(ci + 1)
Next == History \/ Loop \/ PrintLine \/ Stat \/ NextCase
Spec == Init /\ [][Next]_vars
Conforms == ok
\* a run is not over before everything happened
Whole == Over => CASE Kind = "loop" -> LoopEnd [] Kind = "prints" -> PrintEnd [] OTHER -> TRUE
\* no behaviour of the recording is unexplained
Explained == Over \/ ~ok \/ ENABLED Next
=============================================================================
