---------------------------- MODULE TraceCheck -----------------------------
(* Validation of recorded executions of the implementation.  The trace file *)
(* holds many histories, each started by a "reset" line; every other line   *)
(* is one operation with its arguments and the observation made after it.   *)
(* A line the specification does not explain is reported (BAD) and the rest *)
(* of its history is skipped, so that one run reports every history that    *)
(* departs from the specification.                                          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS InitSt, Apply(_, _), Match(_, _), Inv(_), TraceFile
VARIABLES st, l, skip

\* BEGIN
Trace == ndJsonDeserialize(TraceFile)

Init == st = InitSt /\ l = 1 /\ skip = FALSE

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op.a = "reset" THEN st' = InitSt /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET r == Apply(st, e.op) IN
          IF Match(r.obs, e.obs)
          THEN st' = r.st /\ skip' = FALSE
          ELSE /\ PrintT(<<"BAD", l, ToJson(r.obs)>>)
               /\ skip' = TRUE /\ UNCHANGED st
  /\ (l = Len(Trace)) => PrintT(<<"DONE", l>>)
StateInv == Inv(st)
\* END
=============================================================================
