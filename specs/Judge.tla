------------------------------- MODULE Judge -------------------------------
(* Judging records of real executions.  Every record of the trace file is   *)
(* consumed exactly once (JLanes independent lanes let TLC's workers share  *)
(* the work); Verdict(rec) is the set of names of the clauses the record    *)
(* violates, and a failing record is reported with those names.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Verdict(_)
VARIABLES lane, pos
jvars == <<lane, pos>>
JTrace == ndJsonDeserialize(IOEnv.VP_TRACE)
JLanes == 16
JIdx(ln, p) == p * JLanes + ln + 1
JInit == lane \in 0..(JLanes - 1) /\ pos = 0
JStep ==
  /\ pos >= 0 /\ JIdx(lane, pos) <= Len(JTrace)
  /\ LET i == JIdx(lane, pos)
         v == Verdict(JTrace[i])
     IN  v # {} => PrintT("@@" \o ToJson([l |-> i, v |-> v]))
  /\ pos' = pos + 1 /\ lane' = lane
JEnd ==
  /\ pos >= 0 /\ JIdx(lane, pos) > Len(JTrace)
  /\ PrintT("@@" \o ToJson([done |-> pos]))
  /\ pos' = -1 - pos /\ lane' = lane
JNext == JStep \/ JEnd
JSpec == JInit /\ [][JNext]_jvars
=============================================================================
