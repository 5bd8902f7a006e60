----------------------------- MODULE Determ -----------------------------
(* Runs of the tools over a set of directories, as a state machine.  The   *)
(* disk maps each directory to its files (by the digest of what they       *)
(* hold).  A run of a tool reads and writes certain files of its           *)
(* directory.  What it writes is a function of what it reads and of the    *)
(* options that mean something: not of the threads, the moment, the        *)
(* schedule, the directory, its other files, earlier results lying there,  *)
(* or what unused memory happened to hold.  And it writes nothing else.    *)
(* The recorded histories of the real tools are replayed.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES ci, i, disk, known, settled, fault
vars == <<ci, i, disk, known, settled, fault>>
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Events(c) == Cases[c].ev
Ev == Events(ci)[i]
None == "none"
\* the files a tool reads and writes; the others of a directory are none of its business
Reads == [qbsp |-> {"m.map", "t.wad"}, vis |-> {"m.bsp", "m.prt"}, light |-> {"m.bsp"}, bsputil |-> {"m.bsp"}]
Writes == [qbsp |-> {"m.bsp", "m.prt", "m.pts", "m.leak.prt"}, vis |-> {"m.bsp"}, light |-> {"m.bsp", "m.lit", "m.lux", "m.octree.prt"}, bsputil |-> {"m.decompile.map"}]
\* logs and preferences tell times and paths
Volatile == {"m.log", "m-vis.log", "m-light.log", "bsputil.log", "m.texinfo.json"}
\* with several threads vis may prove more or less invisible, depending on which portals finish first (VisSched.tla says within which limits); without -fast it then is a function of nothing here
Free(e) == e.tool = "vis" /\ e.threads > 1 /\ ~e.fast
Names(e) == {f \in DOMAIN e.before : TRUE} \cup {f \in DOMAIN e.after : TRUE}
Get(m, f) == IF f \in DOMAIN m THEN m[f] ELSE None
Key(e) == <<e.tool, e.opts, [f \in Reads[e.tool] |-> Get(e.before, f)]>>
\* light works on the file it is given: lighting its own result again gives the same lumps (those of BSPX in whatever order; the harness digests them as lumps)
Again(e) == [f \in Reads.light |-> Get(e.after, f)]
Lit(e) == <<e.lumps, Get(e.after, "m.lit"), Get(e.after, "m.lux"), e.exit>>
Result(e) == [f \in Writes[e.tool] \cup {"exit"} |-> IF f = "exit" THEN e.exit ELSE Get(e.after, f)]
Init == ci = 1 /\ i = 1 /\ disk = <<>> /\ known = <<>> /\ settled = <<>> /\ fault = "none"
\* the harness lays out a directory
Put == /\ Ev.tool = "put"
       /\ disk' = (Ev.dir :> Ev.after) @@ disk
       /\ UNCHANGED <<known, settled, fault>>
Run == LET e == Ev
           k == Key(e)
           r == Result(e)
       IN /\ e.tool # "put"
          /\ disk' = (e.dir :> e.after) @@ disk
          /\ known' = IF Free(e) \/ k \in DOMAIN known THEN known ELSE (k :> r) @@ known
          /\ settled' = IF e.tool = "light" /\ e.exit = "0" /\ <<e.opts, Again(e)>> \notin DOMAIN settled THEN (<<e.opts, Again(e)>> :> Lit(e)) @@ settled ELSE settled
          /\ fault' = CASE e.before # disk[e.dir] -> "the files changed between two runs"
                        [] \E f \in Names(e) \ (Writes[e.tool] \cup Volatile) : Get(e.before, f) # Get(e.after, f) -> "a file that is none of its business changed"
                        [] ~Free(e) /\ k \in DOMAIN known /\ known[k] # r -> "another result than before"
                        [] e.tool = "light" /\ <<e.opts, k[3]>> \in DOMAIN settled /\ settled[<<e.opts, k[3]>>] # Lit(e) -> "another result when lit again"
                        [] OTHER -> "none"
Next == \/ i <= Len(Events(ci)) /\ (Put \/ Run) /\ i' = i + 1 /\ UNCHANGED ci
        \/ i > Len(Events(ci)) /\ ci < Len(Cases) /\ ci' = ci + 1 /\ i' = 1 /\ disk' = <<>> /\ known' = <<>> /\ settled' = <<>> /\ fault' = "none"
Spec == Init /\ [][Next]_vars
Function == fault # "another result than before"
Settles == fault # "another result when lit again"
Frame == fault \notin {"a file that is none of its business changed", "the files changed between two runs"}
=============================================================================
