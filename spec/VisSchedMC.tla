---------------------------- MODULE VisSchedMC ----------------------------
(* VisSched on small graphs, every interleaving of the workers, every truth  *)
(* the geometry could have, every result between the truth and the           *)
(* candidates, a crash and a resumption at any point.                        *)
EXTENDS VisSched, TLC
CONSTANTS Graphs, Workers, MaxCrash
VARIABLES left, crashes
Leafs == UNION {{ports[i][1], ports[i][2]} : i \in 1..Len(ports)}
Free == {w \in Workers : \A p \in P : ~(st[p] = Working /\ by[p] = w)}
Symmetric(T, pp) == LET own(p) == pp[p \div 2 + 1][1 + (p % 2)]
                        PP == 0..(2 * Len(pp) - 1)
                        LL == UNION {{pp[i][1], pp[i][2]} : i \in 1..Len(pp)}
                    IN \A a \in LL, b \in LL : (\E p \in PP : own(p) = a /\ b \in T[p]) => (\E q \in PP : own(q) = b /\ a \in T[q])
AllLeafs(pp) == UNION {{pp[i][1], pp[i][2]} : i \in 1..Len(pp)}
MCInit == /\ ports \in Graphs
          /\ LET PP == 0..(2 * Len(ports) - 1)
             IN /\ truth \in {T \in [PP -> SUBSET AllLeafs(ports)] : (\A p \in PP : ports[p \div 2 + 1][2 - (p % 2)] \in T[p] /\ ports[p \div 2 + 1][1 + (p % 2)] \notin T[p]) /\ Symmetric(T, ports)}
                /\ st = [p \in PP |-> None] /\ mi = [p \in PP |-> AllLeafs(ports) \ {ports[p \div 2 + 1][1 + (p % 2)]}] /\ vi = [p \in PP |-> {}] /\ by = [p \in PP |-> Idle]
                /\ saved = [st |-> [p \in PP |-> None], mi |-> [p \in PP |-> AllLeafs(ports) \ {ports[p \div 2 + 1][1 + (p % 2)]}], vi |-> [p \in PP |-> {}]]
                /\ left = 2 * Len(ports)
          /\ asm = {} /\ crashes = 0
\* one round of the parallel loop hands a worker one portal
Begin(w, p) == left > 0 /\ w \in Free /\ st[p] = None /\ st' = [st EXCEPT ![p] = Working] /\ by' = [by EXCEPT ![p] = w] /\ left' = left - 1
               /\ UNCHANGED <<ports, truth, mi, vi, saved, asm, crashes>>
End(w, p, V) == Finish(p, w, V) /\ truth[p] \subseteq V /\ UNCHANGED <<left, crashes>>
MCNext == \/ \E w \in Workers, p \in P : Begin(w, p)
          \/ \E w \in Workers, p \in P, V \in SUBSET Leafs : End(w, p, V)
          \/ \E q \in P, l \in Leafs : Clear(q, l) /\ UNCHANGED <<left, crashes>>
          \/ crashes < MaxCrash /\ Save /\ saved' # saved /\ UNCHANGED <<left, crashes>>
          \/ crashes < MaxCrash /\ Resume /\ crashes' = crashes + 1 /\ left' = Cardinality({p \in P : saved.st[p] # Done})
          \/ \E c \in Leafs : left = 0 /\ Assemble(c) /\ UNCHANGED <<left, crashes>>
MCSpec == MCInit /\ [][MCNext]_<<svars, left, crashes>> /\ WF_<<svars, left, crashes>>(MCNext)
Finished == asm = Leafs
Terminates == <>Finished
\* nobody is left over when the loop ends, and the loop never runs dry early
LoopFits == (left = 0 /\ \A p \in P : st[p] # Working) => \A p \in P : st[p] = Done
=============================================================================
