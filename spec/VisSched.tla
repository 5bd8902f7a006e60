----------------------------- MODULE VisSched -----------------------------
(* How vis shares the portals among its workers: what a worker may pick,     *)
(* what finishing a portal may record, when another portal's candidates may  *)
(* be cleared, what a saved state holds and what a run resumed from it       *)
(* starts with, and when the result may be put together.                     *)
(* Portal p leads from Owner(p) to Into(p).  truth[p] is what can really be  *)
(* seen through p: the geometry, which the schedule does not know.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ports, truth, st, mi, vi, by, saved, asm
svars == <<ports, truth, st, mi, vi, by, saved, asm>>

None == 0
Working == 1
Done == 2
Idle == -1
NP == 2 * Len(ports)
P == 0..(NP - 1)
Owner(p) == ports[p \div 2 + 1][1 + (p % 2)]
Into(p) == ports[p \div 2 + 1][2 - (p % 2)]
Of(l) == {p \in P : Owner(p) = l}
Sees(r) == IF st[r] = Done THEN vi[r] ELSE mi[r]
\* no portal of leaf l can see the leaf q belongs to, so nothing of l can be seen through q
Justified(q, l) == \A r \in Of(l) : Owner(q) \notin Sees(r)

Pick(p, w) == /\ st[p] = None
              /\ st' = [st EXCEPT ![p] = Working]
              /\ UNCHANGED <<ports, truth, mi, vi, by, saved, asm>>
Flow(p, w) == /\ st[p] = Working /\ by[p] = Idle
              /\ by' = [by EXCEPT ![p] = w]
              /\ UNCHANGED <<ports, truth, st, mi, vi, saved, asm>>
Finish(p, w, V) == /\ st[p] = Working /\ by[p] = w
                   /\ V \subseteq mi[p]
                   /\ st' = [st EXCEPT ![p] = Done]
                   /\ vi' = [vi EXCEPT ![p] = V]
                   /\ UNCHANGED <<ports, truth, mi, by, saved, asm>>
Clear(q, l) == /\ st[q] = None /\ l \in mi[q] /\ Justified(q, l)
               /\ mi' = [mi EXCEPT ![q] = @ \ {l}]
               /\ UNCHANGED <<ports, truth, st, vi, by, saved, asm>>
Save == /\ saved' = [st |-> [p \in P |-> IF st[p] = Done THEN Done ELSE None], mi |-> mi, vi |-> [p \in P |-> IF st[p] = Done THEN vi[p] ELSE {}]]
        /\ UNCHANGED <<ports, truth, st, mi, vi, by, asm>>
Resume == /\ st' = saved.st /\ mi' = saved.mi /\ vi' = saved.vi /\ by' = [p \in P |-> Idle] /\ asm' = {}
          /\ UNCHANGED <<ports, truth, saved>>
Assemble(c) == /\ \A p \in P : st[p] = Done
               /\ c \notin asm /\ asm' = asm \cup {c}
               /\ UNCHANGED <<ports, truth, st, mi, vi, by, saved>>

NeverLost == \A p \in P : truth[p] \subseteq mi[p]
Exact == \A p \in P : st[p] = Done => truth[p] \subseteq vi[p] /\ vi[p] \subseteq mi[p]
SavedIsGood == \A p \in P : truth[p] \subseteq saved.mi[p] /\ (saved.st[p] = Done => truth[p] \subseteq saved.vi[p])
=============================================================================
