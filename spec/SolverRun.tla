------------------------------ MODULE SolverRun -----------------------------
(* The frame every stage solver runs in: it opens the method scope, computes*)
(* (raising warnings, opening inner scopes, storing results, possibly       *)
(* throwing), stores its result and its warnings, resets the warnings and   *)
(* closes the scope.                                                        *)
EXTENDS Base
CONSTANTS Models, Stages, Methods, Codes, MaxScript, MaxRuns

InitSt == [store |-> EmptyFn, pend |-> <<>>, runs |-> 0]

\* observation: every stored thing, the pending warnings and the open scopes
Obs(s, ret) ==
  [ret |-> ret,
   store |-> {[key |-> k, val |-> s.store[k]] : k \in DOMAIN s.store},
   bits |-> Range1(s.pend), nmsg |-> Len(s.pend),
   scopes |-> <<>>]

\* One step of a solver's computation, on [store, pend, err]:
\*   [x |-> "warn", code], [x |-> "put", name], [x |-> "inner", name]: store
\*   inside a nested scope, [x |-> "throw", kind], [x |-> "throwInner", kind]
StepIn(c, e, path, id) ==
  IF c.err # "" THEN c
  ELSE CASE e.x = "warn" -> [c EXCEPT !.pend = Append(@, e.code)]
         [] e.x = "put" ->
              IF Append(path, e.name) \in DOMAIN c.store THEN [c EXCEPT !.err = "INTERNAL_ERROR"]
              ELSE [c EXCEPT !.store = Put(@, Append(path, e.name), [kind |-> "result", n |-> id])]
         [] e.x = "inner" ->
              IF path \o <<"inner", e.name>> \in DOMAIN c.store THEN [c EXCEPT !.err = "INTERNAL_ERROR"]
              ELSE [c EXCEPT !.store = Put(@, path \o <<"inner", e.name>>, [kind |-> "result", n |-> id])]
         [] e.x \in {"throw", "throwInner"} -> [c EXCEPT !.err = e.kind]

RECURSIVE RunScript(_, _, _, _)
RunScript(c, script, path, id) ==
  IF script = <<>> THEN c
  ELSE RunScript(StepIn(c, Head(script), path, id), Tail(script), path, id)

Kinds == {"INTERNAL_ERROR", "std", "int"}

\* solver run: init is what initialising its ranges does ("ok" or an error)
Solve(s, o) ==
  LET path == <<o.model, o.stage, o.method>>
      id == s.runs + 1
  IN
  IF o.init # "ok"
  THEN LET n == [s EXCEPT !.runs = id] IN R(n, Obs(n, o.init))
  ELSE
  LET c == RunScript([store |-> s.store, pend |-> s.pend, err |-> ""], o.script, path, id)
      sol == Append(path, "solveResult")
      err == IF c.err = "" /\ sol \in DOMAIN c.store THEN "INTERNAL_ERROR" ELSE c.err
      st1 == IF err = ""
             THEN Put(c.store, Append(path, "solveResult"), [kind |-> "result", n |-> id])
             ELSE c.store
      flg == Append(path, "warningFlag")
      \* what is stored is never replaced, even by a second run
      st2 == IF flg \in DOMAIN st1 THEN st1 ELSE Put(st1, flg,
                 [kind |-> "flag", bits |-> Range1(c.pend), msgs |-> c.pend])
      n == [store |-> st2, pend |-> <<>>, runs |-> id]
  IN R(n, Obs(n, IF err = "" THEN "ok" ELSE err))

\* warnings raised outside any solver, and the reset for the next spectrum
Warn(s, o) == LET n == [s EXCEPT !.pend = Append(@, o.code)] IN R(n, Obs(n, "ok"))
NextSpectrum(s) == LET n == [InitSt EXCEPT !.runs = s.runs] IN R(n, Obs(n, "ok"))

Apply(s, o) == CASE o.a = "solve" -> Solve(s, o)
                 [] o.a = "warn" -> Warn(s, o)
                 [] o.a = "next" -> NextSpectrum(s)

Events == {[x |-> "warn", code |-> c] : c \in Codes} \cup
          {[x |-> "put", name |-> "r"], [x |-> "inner", name |-> "r"]} \cup
          {[x |-> "throw", kind |-> k] : k \in Kinds} \cup
          {[x |-> "throwInner", kind |-> k] : k \in Kinds}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>}
               ELSE LET p == SeqsUpTo(n - 1) IN
                    p \cup {Append(q, e) : q \in {x \in p : Len(x) = n - 1}, e \in Events}
IsThrow(e) == e.x \in {"throw", "throwInner"}
\* each name stored once, nothing after a throw
Scripts == {q \in SeqsUpTo(MaxScript) :
              /\ \A i \in 1..Len(q) : IsThrow(q[i]) => i = Len(q)
              /\ \A i, j \in 1..Len(q) : (q[i].x \in {"put", "inner"} /\ q[i] = q[j]) => i = j}

\* a solver that already ran is run again with short scripts only
AgainScripts == {q \in Scripts : Len(q) <= 1}
Done(s, m, t, h) == <<m, t, h, "warningFlag">> \in DOMAIN s.store

SolveOps(s, scripts, inits) ==
  {[a |-> "solve", model |-> k[1], stage |-> k[2], method |-> k[3],
    init |-> i, script |-> q]
     : k \in {x \in Models \X Stages \X Methods : ~Done(s, x[1], x[2], x[3])},
       i \in inits, q \in scripts}
  \cup {[a |-> "solve", model |-> k[1], stage |-> k[2], method |-> k[3],
         init |-> i, script |-> q]
     : k \in {x \in Models \X Stages \X Methods : Done(s, x[1], x[2], x[3])},
       i \in inits, q \in scripts \cap AgainScripts}

Ops(s) == IF s.runs >= MaxRuns THEN {[a |-> "next"]}
          ELSE SolveOps(s, Scripts, {"ok"}) \cup SolveOps(s, {<<>>}, Kinds) \cup
               {[a |-> "warn", code |-> c] : c \in IF Len(s.pend) > 0 THEN {} ELSE Codes} \cup {[a |-> "next"]}
SimOps(s) == SolveOps(s, Scripts, {"ok"}) \cup SolveOps(s, {<<>>}, Kinds) \cup
             {[a |-> "warn", code |-> c] : c \in Codes} \cup {[a |-> "next"]}

Inv(s) == \A k \in DOMAIN s.store : Last1(k) = "solveResult" =>
            Append(Front1(k), "warningFlag") \in DOMAIN s.store
StepOK(s, o, r) ==
  (o.a = "solve" /\ o.init = "ok") =>
    /\ r.st.pend = <<>>
    /\ ~Done(s, o.model, o.stage, o.method) => LET f == r.st.store[<<o.model, o.stage, o.method, "warningFlag">>] IN
       \A i \in 1..Len(o.script) : o.script[i].x = "warn" => o.script[i].code \in f.bits
    /\ \A k \in DOMAIN s.store : r.st.store[k] = s.store[k]
    /\ (r.obs.ret # "ok") => <<o.model, o.stage, o.method, "solveResult">> \in DOMAIN s.store \/
         <<o.model, o.stage, o.method, "solveResult">> \notin DOMAIN r.st.store

Norm(v) == IF HasKey(v, "bits") THEN [v EXCEPT !.bits = Range1(v.bits)] ELSE v
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ a.store = {[key |-> b.store[i].key, val |-> Norm(b.store[i].val)] : i \in 1..Len(b.store)}
  /\ a.bits = Range1(b.bits) /\ a.nmsg = b.nmsg /\ a.scopes = b.scopes
=============================================================================
