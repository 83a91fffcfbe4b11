----------------------------- MODULE ProcessFlow -----------------------------
(* One process: pipelines are configured, and spectra are run through the   *)
(* configured pipeline, any stage of which may fail.  The outcome of a run  *)
(* is a function of the configuration and of the spectrum (its faults and   *)
(* warnings) only: the state holds nothing else.                            *)
EXTENDS Base
CONSTANTS Models,     \* names of spectrum models
          MaxModels, Solvers, Rels, Faults, InitFaults, MaxRuns, MaxNews

(* A model's configuration: rs the redshift method, lmeas line measurement, *)
(* cat its measurement catalogue is given, rel reliability ("on": enabled   *)
(* with a network loaded; "no": enabled without one; "off").                *)
ModelCfgs == {c \in [m : Models, rs : Solvers, lmeas : BOOLEAN, cat : BOOLEAN, rel : Rels] :
                (c.cat => c.lmeas) /\ (c.rs # "none" \/ c.rel = "off")}
Cfgs == UNION {{c \in [1..n -> ModelCfgs] : \A i, j \in 1..n : i # j => c[i].m # c[j].m} : n \in 1..MaxModels}

InitSt == [cfg |-> <<>>, ctxw |-> <<>>, runs |-> 0, news |-> 0]

Mask(ws) == LET S == Range1(ws) IN FoldSet(LAMBDA b, acc : acc + 2^b, 0, S)
MethodOf(rs) == CASE rs \in {"lm", "lmtpl"} -> "lineModelSolve"
                [] rs = "tf" -> "templateFittingSolve" [] rs = "tc" -> "tplCombinationSolve"
CodeOf(f) == CASE f = "amz" -> "INVALID_PARAMETER" [] f = "cpp" -> "UNKNOWN_ATTRIBUTE"
             [] f = "py" -> "PYTHON_API_ERROR"
NotRun == "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE"
RefOf(k) == CASE k = 1 -> "0.125" [] k = 2 -> "0.25" [] k = 3 -> "0.375" [] OTHER -> "?"

Plan(o, key) == LET S == {i \in DOMAIN o.plan : o.plan[i].s = key} IN
                IF S = {} THEN [f |-> "ok", w |-> <<>>]
                ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x IN [f |-> o.plan[i].f, w |-> o.plan[i].w]
Fault(o, m, stage) == Plan(o, m \o "/" \o stage).f

Call(m, stage, method, ref) ==
  [stage |-> m \o "/" \o stage, method |-> method, scope |-> m \o "/" \o stage,
   flags |-> <<>>, ref |-> ref]

\* the stages a model goes through, in order
CallsOf(c, o) ==
  LET rs == <<Call(c.m, "redshiftSolver", MethodOf(c.rs), "")>>
      sub == IF c.rs = "lmtpl" THEN <<Call(c.m, "subClassifSolver", "", "")>> ELSE <<>>
      rel == IF c.rel = "on" THEN <<Call(c.m, "reliabilitySolver", "", "")>> ELSE <<>>
      load == <<Call(c.m, "linemeas_catalog_load", "", "")>>
      lm == <<Call(c.m, "lineMeasSolver", "lineMeasSolve", RefOf(o.k))>>
  IN IF c.rs = "none"
     THEN IF c.lmeas /\ c.cat THEN lm ELSE <<>>
     ELSE IF Fault(o, c.m, "redshiftSolver") # "ok" THEN rs
     ELSE rs \o sub \o rel \o
          (IF c.lmeas /\ ~c.cat
           THEN IF Fault(o, c.m, "linemeas_catalog_load") # "ok" THEN load ELSE load \o lm
           ELSE <<>>)

Enabled(c) == (IF c.rs # "none" THEN {"redshiftSolver"} ELSE {}) \cup
              (IF c.lmeas THEN {"lineMeasSolver"} ELSE {}) \cup
              (IF c.rel # "off" THEN {"reliabilitySolver"} ELSE {}) \cup
              (IF c.rs = "lmtpl" THEN {"subClassifSolver"} ELSE {})
After(stage) == CASE stage = "redshiftSolver" -> {"lineMeasSolver", "reliabilitySolver", "subClassifSolver"}
                [] stage = "linemeas_catalog_load" -> {"lineMeasSolver"}
                [] OTHER -> {}
Short(stage) == stage   \* stage of a call, without its model

StagesCalled(c, o) == LET cs == CallsOf(c, o) IN
  {s \in {"redshiftSolver", "subClassifSolver", "reliabilitySolver", "linemeas_catalog_load", "lineMeasSolver"} :
     \E i \in DOMAIN cs : cs[i].stage = c.m \o "/" \o s}
FailedStages(c, o) == {s \in StagesCalled(c, o) : Fault(o, c.m, s) # "ok"}

\* stage -> error of one model
ErrorsOf(c, o) ==
  LET failed == FailedStages(c, o)
      skipped == UNION {After(s) : s \in failed} \cap Enabled(c)
      keys == failed \cup skipped
  IN [k \in {s \o "_" \o c.m : s \in keys} |->
        LET s == CHOOSE x \in keys : x \o "_" \o c.m = k IN
        IF s \in failed THEN CodeOf(Fault(o, c.m, s)) ELSE NotRun]
Merge(fs) == FoldSet(LAMBDA f, acc : f @@ acc, EmptyFn, fs)

\* what a failed initialisation reports
InitCode(cfg, o) ==
  CASE o.init \in {"amz", "cpp", "py"} -> CodeOf(o.init)
  [] o.init = "nocat" /\ (\E i \in DOMAIN cfg : cfg[i].cat) -> "INVALID_PARAMETER"
  [] o.init = "nan" -> "INVALID_SPECTRUM_FLUX"
  [] OTHER -> "ok"

WarnOf(c, o) ==
  LET called == StagesCalled(c, o)
      rs == IF "redshiftSolver" \in called
            THEN c.m \o "/" \o MethodOf(c.rs) \o "WarningFlags" :> <<Mask(Plan(o, c.m \o "/redshiftSolver").w)>> ELSE EmptyFn
      lm == IF "lineMeasSolver" \in called
            THEN c.m \o "/lineMeasSolveWarningFlags" :> <<Mask(Plan(o, c.m \o "/lineMeasSolver").w)>> ELSE EmptyFn
  IN rs @@ lm
OutOf(c, o) == {k \in {"rel:" \o c.m \o "/reliabilitySolver"} :
                  "reliabilitySolver" \in StagesCalled(c, o) \ FailedStages(c, o)} \cup
               {k \in {"sub:" \o c.m \o "/subClassifSolver"} :
                  "subClassifSolver" \in StagesCalled(c, o) \ FailedStages(c, o)}

Outcome(cfg, ctxw, o) ==
  LET n == Len(cfg)
      base == ("context_warningFlag" :> <<Mask(ctxw)>>) @@ ("init_warningFlag" :> <<Mask(o.initw)>>)
      code == InitCode(cfg, o)
  IN IF code # "ok"
     THEN [ret |-> "ok", calls |-> <<>>, depth |-> 0, flags |-> <<>>, warn |-> base, out |-> {},
           cls |-> "no", injected |-> IF o.init \in {"amz", "py"} THEN {"init:init"} ELSE {},
           errors |-> ("init" :> code) @@
              [k \in UNION {{s \o "_" \o cfg[i].m : s \in Enabled(cfg[i])} : i \in 1..n} |-> NotRun]]
     ELSE
     LET solved == {i \in 1..n : cfg[i].rs # "none"}
         dead == {i \in solved : "redshiftSolver" \in FailedStages(cfg[i], o)}
         cls == CASE solved = {} -> "no"           \* nothing to classify
                [] dead = 1..n -> "error"          \* every redshift solver failed
                [] dead = solved -> "either"       \* reported by the classification itself
                [] OTHER -> "run"
         load == Plan(o, "/load_result_store").f
         clsf == Plan(o, "classification/classification")
         clsrun == ("classification/classification" :> 0)
     IN [ret |-> "ok", depth |-> 0, flags |-> <<>>, cls |-> cls,
         calls |-> FoldLeft(LAMBDA acc, i : acc \o CallsOf(cfg[i], o), <<>>, [i \in 1..n |-> i]) \o
           (IF cls = "run" THEN <<Call("classification", "classification", "classification", "")>> ELSE <<>>),
         errors |-> Merge({ErrorsOf(cfg[i], o) : i \in 1..n}) @@
           (IF cls = "error" THEN "classification" :> "NO_CLASSIFICATION"
            ELSE IF cls = "run" /\ clsf.f # "ok" THEN "classification" :> CodeOf(clsf.f) ELSE EmptyFn) @@
           (IF load # "ok" THEN "load_result_store" :> CodeOf(load) ELSE EmptyFn),
         injected |-> UNION {{s \o "_" \o cfg[i].m \o ":" \o cfg[i].m \o "/" \o s :
                               s \in {x \in FailedStages(cfg[i], o) : Fault(o, cfg[i].m, x) \in {"amz", "py"}}} : i \in 1..n} \cup
           (IF cls = "run" /\ clsf.f \in {"amz", "py"} THEN {"classification:classification/classification"} ELSE {}) \cup
           (IF load \in {"amz", "py"} THEN {"load_result_store:load"} ELSE {}),
         warn |-> base @@
           (IF cls = "run" THEN "classification" :> <<Mask(clsf.w)>> ELSE EmptyFn) @@
           (IF load = "ok" THEN Merge({WarnOf(cfg[i], o) : i \in 1..n}) ELSE EmptyFn),
         out |-> UNION {OutOf(cfg[i], o) : i \in 1..n}]

\* a line-measurement catalogue together with a chained line measurement
Incoherent(cfg) == (\E i \in DOMAIN cfg : cfg[i].cat) /\
                   (\E i \in DOMAIN cfg : cfg[i].lmeas /\ cfg[i].rs \in {"lm", "lmtpl"})

Apply(s, o) ==
  CASE o.a = "new" ->
         LET obs == [ret |-> "ok", depth |-> 0, flags |-> <<>>] IN
         IF Incoherent(o.cfg)
         THEN R([s EXCEPT !.cfg = <<>>, !.runs = 0, !.news = @ + 1],
                [obs EXCEPT !.ret = "INCOHERENT_CONFIG_OPTIONS"])
         ELSE R([cfg |-> o.cfg, ctxw |-> o.ctxw, runs |-> 0, news |-> s.news + 1], obs)
  [] o.a = "run" -> R([s EXCEPT !.runs = @ + 1], Outcome(s.cfg, s.ctxw, o))

\* every placement of at most two faults over the stages a model may reach
AllStages == {"redshiftSolver", "subClassifSolver", "reliabilitySolver", "linemeas_catalog_load", "lineMeasSolver"}
Keys(cfg) == UNION {{cfg[i].m \o "/" \o s : s \in AllStages} : i \in DOMAIN cfg} \cup
             {"classification/classification", "/load_result_store"}
WarnFor(k) == IF k \in {"/load_result_store"} THEN <<>> ELSE <<1>>
Plans(cfg) == {<<>>} \cup {<<[s |-> k, f |-> f, w |-> WarnFor(k)]>> : k \in Keys(cfg), f \in Faults}
              \cup {<<[s |-> k, f |-> f, w |-> <<>>], [s |-> j, f |-> "ok", w |-> <<4>>]>> :
                      k \in {x \in Keys(cfg) : Faults # {}}, j \in Keys(cfg), f \in {"amz"}}
Runs(cfg) == {[a |-> "run", k |-> 1, init |-> "ok", initw |-> <<>>, plan |-> p] : p \in Plans(cfg)} \cup
             {[a |-> "run", k |-> 2, init |-> i, initw |-> <<2>>, plan |-> <<>>] : i \in InitFaults}
Ops(s) == (IF s.news < MaxNews /\ (s.news = 0 \/ s.runs > 0)
           THEN {[a |-> "new", cfg |-> c, ctxw |-> w] : c \in Cfgs, w \in {<<>>, <<3>>}} ELSE {}) \cup
          (IF s.cfg # <<>> /\ s.runs < MaxRuns THEN Runs(s.cfg) ELSE {})
SimOps(s) == Ops(s)

Inv(s) == TRUE

\* containment: what one model's stages do and report does not depend on
\* what was planned for the others
OnlyOf(o, m) == [o EXCEPT !.plan = SelectSeq(@, LAMBDA p : \E s \in AllStages : p.s = m \o "/" \o s)]
StepOK(s, o, r) ==
  (o.a = "run" /\ InitCode(s.cfg, o) = "ok") =>
    /\ \A i \in DOMAIN s.cfg :
         LET c == s.cfg[i] IN
         /\ CallsOf(c, o) = CallsOf(c, OnlyOf(o, c.m))
         /\ \A k \in DOMAIN ErrorsOf(c, OnlyOf(o, c.m)) : r.obs.errors[k] = ErrorsOf(c, OnlyOf(o, c.m))[k]
         \* every enabled stage either ran, or is reported as not run
         /\ \A st \in Enabled(c) : (st # "lineMeasSolver" \/ c.cat = (c.rs = "none")) /\ (st # "reliabilitySolver" \/ c.rel = "on") =>
              st \in StagesCalled(c, o) \/ (st \o "_" \o c.m) \in DOMAIN r.obs.errors
    /\ \A i, j \in DOMAIN r.obs.calls : i # j => r.obs.calls[i].stage # r.obs.calls[j].stage

\* (errors of the catalogue-load pseudo-stage after a failed initialisation
\* are not specified)
Relevant(f) == {k \in DOMAIN f : ~(f[k] = NotRun /\ \E n \in 0..5 : Len(k) > 22 /\ SubSeq(k, 1, 22) = "linemeas_catalog_load_")}
SameFn(f, g, ks) == \A k \in ks : k \in DOMAIN g /\ f[k] = g[k]
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret /\ a.depth = b.depth /\ a.flags = b.flags
  /\ ("calls" \in DOMAIN a) =>
     /\ "calls" \in DOMAIN b
     /\ LET isc(k) == a.cls = "either" /\ k = "classification"
            bc == IF a.cls = "either" THEN SelectSeq(b.calls, LAMBDA c : c.method # "classification") ELSE b.calls
            be == {k \in DOMAIN b.errors : ~isc(k)}
            bw == {k \in DOMAIN b.warn : ~isc(k)}
        IN /\ a.calls = bc
           /\ DOMAIN a.errors = {k \in Relevant(b.errors) : ~isc(k)} /\ SameFn(a.errors, b.errors, DOMAIN a.errors)
           /\ a.injected = {x \in Range1(b.injected) : a.cls # "either" \/ x # "classification:classification/classification"}
           /\ DOMAIN a.warn = bw /\ SameFn(a.warn, b.warn, bw)
           /\ a.out = Range1(b.out) /\ Cardinality(a.out) = Len(b.out)
=============================================================================
