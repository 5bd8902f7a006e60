----------------------------- MODULE VisTrace -----------------------------
(* Traces of the real vis, replayed as behaviours of VisSched.  The truth is *)
(* what the sight lines of the world prove (PortalWorld); a case carries one *)
(* or more recorded runs, each a list of events in the order they happened.  *)
EXTENDS PortalWorld
VARIABLES truth, st, mi, vi, by, saved, asm, e, why
S == INSTANCE VisSched WITH ports <- W.ports
svars == <<truth, st, mi, vi, by, saved, asm>>
tvars == <<ci, phase, k, must, mustd, pmust, comp, rows, hear, pstate, bad, truth, st, mi, vi, by, saved, asm, e, why>>
NPorts == 2 * Len(W.ports)
TR == W.traces[k]
Ev == TR[e]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Empty == [p \in 0..(NPorts - 1) |-> {}]
Blank == /\ st = <<>> /\ mi = <<>> /\ vi = <<>> /\ by = <<>> /\ saved = <<>> /\ asm = {}
TInit == Init /\ truth = <<>> /\ Blank /\ e = 0 /\ why = ""
Base == (Comp \/ Ray) /\ UNCHANGED <<svars, e, why>>
Start == /\ phase = "rows" /\ k <= Len(W.traces) /\ e = 0
         /\ truth' = [p \in 0..(NPorts - 1) |-> {s[2] : s \in {x \in pmust : x[1] = p}}]
         /\ st' = [p \in 0..(NPorts - 1) |-> -1] /\ mi' = Empty /\ vi' = Empty /\ by' = [p \in 0..(NPorts - 1) |-> -1]
         /\ saved' = <<>> /\ asm' = {} /\ e' = 1
         /\ UNCHANGED <<ci, phase, k, must, mustd, pmust, comp, rows, hear, pstate, bad, why>>
InitEv == /\ Ev.t = "init" /\ st[Ev.p] = -1 /\ Ev.s \in {0, 2} /\ Ev.n = Cardinality(SetOf(Ev.m))
          /\ st' = [st EXCEPT ![Ev.p] = Ev.s] /\ mi' = [mi EXCEPT ![Ev.p] = SetOf(Ev.m)]
          /\ vi' = [vi EXCEPT ![Ev.p] = IF Ev.s = 2 THEN SetOf(Ev.v) ELSE {}]
          /\ UNCHANGED <<truth, by, saved, asm>>
Ready == \A p \in 0..(NPorts - 1) : st[p] # -1
EvStep == \/ InitEv
          \/ Ev.t = "pick" /\ Ready /\ S!Pick(Ev.p, Ev.w)
          \/ Ev.t = "flow" /\ S!Flow(Ev.p, Ev.w)
          \/ Ev.t = "done" /\ S!Finish(Ev.p, Ev.w, SetOf(Ev.v))
          \/ Ev.t = "clear" /\ S!Clear(Ev.p, Ev.l)
          \/ Ev.t = "assemble" /\ Ready /\ S!Assemble(Ev.c)
Rest == UNCHANGED <<ci, phase, k, must, mustd, pmust, comp, rows, hear, pstate, bad>>
EvFull == Rest /\ EvStep
Follow == phase = "rows" /\ k <= Len(W.traces) /\ e > 0 /\ e <= Len(TR) /\ EvFull /\ e' = e + 1 /\ UNCHANGED why
Stuck == phase = "rows" /\ k <= Len(W.traces) /\ e > 0 /\ e <= Len(TR) /\ ~ENABLED EvFull
         /\ why' = Ev.t /\ e' = Len(TR) + 2 /\ UNCHANGED svars /\ Rest
EndTrace == /\ phase = "rows" /\ k <= Len(W.traces) /\ e = Len(TR) + 1
            /\ why' = IF asm = 0..(NC - 1) THEN "" ELSE "ended early"
            /\ e' = 0 /\ k' = k + 1 /\ UNCHANGED <<svars, ci, phase, must, mustd, pmust, comp, rows, hear, pstate, bad>>
TNextCase == /\ phase = "rows" /\ k > Len(W.traces) /\ ci < Len(Cases)
             /\ ci' = ci + 1 /\ phase' = "comp" /\ k' = 0 /\ must' = {} /\ mustd' = {} /\ pmust' = {} /\ comp' = <<>>
             /\ UNCHANGED <<rows, hear, pstate, bad, svars, e, why>>
TNext == Base \/ Start \/ Follow \/ Stuck \/ EndTrace \/ TNextCase
TSpec == TInit /\ [][TNext]_tvars

Conforms == why = ""
InRun == phase = "rows" /\ k <= Len(W.traces) /\ e > 0 /\ Ready
TNeverLost == InRun => \A p \in 0..(NPorts - 1) : truth[p] \subseteq mi[p]
TExact == InRun => \A p \in 0..(NPorts - 1) : st[p] = 2 => truth[p] \subseteq vi[p] /\ vi[p] \subseteq mi[p]
=============================================================================
