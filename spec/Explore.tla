------------------------------ MODULE Explore ------------------------------
(* Exhaustive exploration of a component specification, shared by all of    *)
(* them.  A component specification provides                                *)
(*   InitSt          the initial abstract state                             *)
(*   Ops(s)          the operations enabled in abstract state s (finite)    *)
(*   Apply(s, o)     the record [st |-> successor, obs |-> observation]     *)
(*   Inv(s)          the state invariant                                    *)
(*   StepOK(s, o, r) the step (action) property                             *)
(* TLC visits every reachable abstract state (VIEW st) and, on every        *)
(* transition, prints the operation history that exercises it: one          *)
(* implementation test per transition of the state graph.                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS InitSt, Ops(_), Apply(_, _), Inv(_), StepOK(_, _, _), MaxLen, Emit
VARIABLES st, hist

\* BEGIN
vars == <<st, hist>>

Init == st = InitSt /\ hist = <<>>

Do(o) == LET r == Apply(st, o) IN
           /\ Assert(StepOK(st, o, r), <<"STEP PROPERTY", st, o, r>>)
           /\ st' = r.st
           /\ hist' = Append(hist, o)

Next == Len(hist) < MaxLen /\ \E o \in Ops(st) : Do(o)

Spec == Init /\ [][Next]_vars

StateInv == Inv(st)
ExploreView == st
EmitEdge == Emit => PrintT(<<"EDGE", ToJson(hist')>>)
\* END
=============================================================================
