------------------------------- MODULE Replay -------------------------------
(* One process runs whole spectra through real pipelines.  The only state   *)
(* is the configuration in force: the outcome of a spectrum is the one it   *)
(* has when it is the first and only spectrum of the process, recorded with *)
(* the operation as "fresh".                                                *)
EXTENDS Base
CONSTANTS Cfgs, Specs, MaxRuns

InitSt == [cfg |-> "", last |-> <<>>, runs |-> 0]

Ops(s) == {[a |-> "new", cfg |-> c] : c \in Cfgs} \cup
          (IF s.cfg = "" \/ s.runs >= MaxRuns THEN {} ELSE {[a |-> "run", s |-> x] : x \in Specs})
SimOps(s) == Ops(s)

\* several models: what each is given alone, unless the spectrum itself fails
Alone(o) ==
  IF \E m \in DOMAIN o.alone : o.alone[m].ret # "ok" \/ o.alone[m].init # "" THEN [ret |-> "any"]
  ELSE [ret |-> "ok", init |-> "", models |-> [m \in DOMAIN o.alone |-> o.alone[m].models[m]]]

Outcome(o) == IF HasKey(o, "alone") THEN Alone(o)
              ELSE IF HasKey(o, "fresh") THEN o.fresh ELSE [ret |-> "ok"]

Apply(s, o) ==
  CASE o.a = "new" -> R([cfg |-> o.cfg, last |-> s.last, runs |-> s.runs], [ret |-> "ok"])
  [] o.a = "run" -> R([cfg |-> s.cfg, last |-> <<s.cfg, o.s>>, runs |-> s.runs + 1], Outcome(o))

Inv(s) == s.runs <= MaxRuns
StepOK(s, o, r) == (o.a = "run") => r.obs = Outcome(o)
Match(e, b) == "ret" \in DOMAIN b /\ (e.ret = "any" \/ e = b)
=============================================================================
