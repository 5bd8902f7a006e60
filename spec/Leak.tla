-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What a leaking compile must report.  Extends the world model with the   *)
(* flood from the void, and judges the recorded outcome of a real run:     *)
(*   C.leaked, C.pts (file exists), C.prt, C.failed (exit status), and the *)
(*   trail C.trail, a sequence of segments in units of 1/16.               *)
(***************************************************************************)
EXTENDS VoxelWorld

Unit == 16
Steps == 32

VoidStart ==
  /\ phase = "check" /\ h = 0 /\ leak
  /\ phase' = "vflood"
  /\ front' = Void /\ dreach' = Void
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, leak, sealed, dsealed, leaf>>
VoidFlood ==
  /\ phase = "vflood" /\ front # {}
  /\ LET nx == {c \in UNION {Nbrs(grid, x) : x \in front} : c \notin dreach /\ ~SealsK(kinds[c])}
     IN  front' = nx /\ dreach' = dreach \cup nx
  /\ UNCHANGED <<ci, h, phase, grid, boxes, kinds, reach, leak, sealed, dsealed, leaf>>
VoidDone ==
  /\ phase = "vflood" /\ front = {}
  /\ phase' = "trail"
  /\ UNCHANGED <<ci, h, grid, boxes, kinds, reach, front, leak, sealed, dreach, dsealed, leaf>>

LeakNext == Next \/ VoidStart \/ VoidFlood \/ VoidDone
LeakSpec == Init /\ [][LeakNext]_vars

Final == (phase = "trail") \/ (phase = "check" /\ ~leak)

\* the intervals of an axis whose closure (widened by a tolerance of 1/4 unit) contains v/16
Near(s, v) == {i \in 1 .. Len(s) - 1 : (i = 1 \/ v >= Unit * s[i] - 4) /\ (i = Len(s) - 1 \/ v <= Unit * s[i+1] + 4)}
CellsNear(p) == {CellAt(grid, i, j, k) : i \in Near(grid.x, p[1]), j \in Near(grid.y, p[2]), k \in Near(grid.z, p[3])}

\* points of the segment <<p, q>>
On(p, q, t) == <<p[1] + ((q[1] - p[1]) * t) \div Steps, p[2] + ((q[2] - p[2]) * t) \div Steps, p[3] + ((q[3] - p[3]) * t) \div Steps>>

\* open straight way from a cell to the margin
Run(c) ==
  LET i == IX(grid, c) j == IY(grid, c) k == IZ(grid, c)
      open(S) == \A x \in S : ~SealsK(kinds[x])
  IN  \/ open({CellAt(grid, x, j, k) : x \in 1 .. i}) \/ open({CellAt(grid, x, j, k) : x \in i .. grid.nx})
      \/ open({CellAt(grid, i, x, k) : x \in 1 .. j}) \/ open({CellAt(grid, i, x, k) : x \in j .. grid.ny})
      \/ open({CellAt(grid, i, j, x) : x \in 1 .. k}) \/ open({CellAt(grid, i, j, x) : x \in k .. grid.nz})

Report == Final => C.leaked = leak
Files == Final => /\ C.pts = leak
                  /\ C.prt = (Opt("keepprt") \/ ~leak)
                  /\ C.failed = (leak /\ Opt("leaktest"))
TrailOpen ==
  (phase = "trail") =>
    \A i \in DOMAIN C.trail : \A t \in 0 .. Steps :
      CellsNear(On(C.trail[i][1], C.trail[i][2], t)) \cap dreach # {}
TrailJoined ==
  (phase = "trail") =>
    \A i \in 2 .. Len(C.trail) : C.trail[i][1] = C.trail[i-1][2]
TrailEnds ==
  (phase = "trail" /\ Len(C.trail) > 0) =>
    /\ \E e \in DOMAIN C.ents : /\ ~C.ents[e].nofill
                                /\ C.trail[1][1] = <<Unit * C.ents[e].p[1], Unit * C.ents[e].p[2], Unit * C.ents[e].p[3]>>
                                /\ CellOf(grid, C.ents[e].p) \in dreach /\ ~SealsK(kinds[CellOf(grid, C.ents[e].p)])
    /\ \E c \in CellsNear(C.trail[Len(C.trail)][2]) : Run(c)
LAlias == [ci |-> ci, phase |-> phase, leak |-> leak, said |-> C.leaked, pts |-> C.pts, prt |-> C.prt, failed |-> C.failed, trail |-> C.trail]
=============================================================================
