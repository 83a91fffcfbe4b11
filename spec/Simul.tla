------------------------------- MODULE Simul -------------------------------
(* Long random behaviours of a component specification: NumSim independent  *)
(* walks of SimLen operations, drawn with a generator kept in the state so  *)
(* that a seed determines every walk.  Every invariant and step property is *)
(* evaluated along the walk, and each complete walk is printed.             *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json
CONSTANTS InitSt, SimOps(_), Apply(_, _), Inv(_), StepOK(_, _, _),
          NumSim, SimLen, Seed
VARIABLES st, hist, w, r1, r2

\* BEGIN
vars == <<st, hist, w, r1, r2>>

Init == /\ w \in 1..NumSim
        /\ st = InitSt /\ hist = <<>>
        /\ r1 = ((w * 7919 + Seed * 104) % 65536) + 1
        /\ r2 = ((w * 31 + Seed * 977) % 30268) + 1

Next == /\ Len(hist) < SimLen
        /\ r1' = (r1 * 75) % 65537
        /\ r2' = (r2 * 171) % 30269
        /\ UNCHANGED w
        /\ LET ops == SetToSeq(SimOps(st)) IN
           /\ Len(ops) > 0
           /\ LET o == ops[1 + ((r1' + r2') % Len(ops))]
                  r == Apply(st, o) IN
              /\ Assert(StepOK(st, o, r), <<"STEP PROPERTY", st, o, r>>)
              /\ st' = r.st
              /\ hist' = Append(hist, o)
              /\ (Len(hist) + 1 = SimLen) =>
                    PrintT(<<"EDGE", ToJson(hist')>>)
StateInv == Inv(st)
\* END
=============================================================================
