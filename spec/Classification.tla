--------------------------- MODULE Classification ---------------------------
(* The classification of a spectrum: every processed model that produced a   *)
(* redshift PDF has an evidence; the class is the most probable of them.     *)
(* Evidences are exp(base) * w with an integer weight w; None is a null one  *)
(* (minus infinity in logarithm), Tiny one that is negligible before any     *)
(* weight but not null.                                                      *)
EXTENDS Base
CONSTANTS Models, Methods, Weights, MaxOps

None == 0
Tiny == -1
InitSt == [models |-> <<>>, store |-> {}, class |-> "", n |-> 0]

\* o.models: sequence of [name, method]; method "" when the model has no
\* redshift solver
Has(s, m) == m.method # "" /\ \E e \in s.store : e.name = m.name /\ e.method = m.method /\ e.stage = "redshiftSolver"
W(s, m) == (CHOOSE e \in s.store : e.name = m.name /\ e.method = m.method /\ e.stage = "redshiftSolver").w
Of(s, i) == IF Has(s, s.models[i]) THEN W(s, s.models[i]) ELSE None
Sum(s) == FoldSet(LAMBDA i, acc : acc + MaxI(0, Of(s, i)), 0, DOMAIN s.models)
Tinies(s) == {i \in DOMAIN s.models : Of(s, i) = Tiny}
Proba(s, i) == \* in 1/10000
  IF Sum(s) > 0 THEN (10000 * MaxI(0, Of(s, i))) \div Sum(s)
  ELSE IF Of(s, i) = Tiny THEN 10000 \div Cardinality(Tinies(s)) ELSE 0
Best(s) == {s.models[i].name : i \in {j \in DOMAIN s.models :
              \A k \in DOMAIN s.models : Proba(s, k) <= Proba(s, j) /\ Of(s, k) <= (IF Sum(s) > 0 THEN Of(s, j) ELSE None)}}

Apply(s, o) ==
  LET t == [s EXCEPT !.n = @ + 1] IN
  CASE o.a = "params" -> LET u == [t EXCEPT !.models = o.models] IN R(u, [ret |-> "ok"])
    [] o.a = "next" -> LET u == [t EXCEPT !.store = {}, !.class = ""] IN R(u, [ret |-> "ok"])
    [] o.a = "put" ->
         LET u == [t EXCEPT !.store = @ \cup {[name |-> o.name, stage |-> o.stage, method |-> o.method, w |-> o.w]}]
         IN R(u, [ret |-> "ok"])
    [] o.a = "classify" ->
         IF Sum(s) = 0 /\ Tinies(s) = {} THEN R(t, [ret |-> "NO_CLASSIFICATION", stored |-> FALSE])
         ELSE LET u == [t EXCEPT !.class = "yes"] IN
              R(u, [ret |-> "ok", stored |-> TRUE, best |-> Best(s),
                    p |-> [i \in DOMAIN s.models |-> Proba(s, i)],
                    e |-> [i \in DOMAIN s.models |-> Of(s, i)]])

Lists == {l \in UNION {[1..n -> [name : Models, method : Methods \cup {""}]] : n \in 1..Cardinality(Models)} :
            \A i, j \in DOMAIN l : i # j => l[i].name # l[j].name}
Ops(s) ==
  IF s.n = 0 THEN {[a |-> "params", models |-> l, base |-> b] : l \in Lists, b \in {0, -1000000, 50000}}
  ELSE IF s.n >= MaxOps THEN {}
  ELSE {o \in [a : {"put"}, name : Models, stage : {"redshiftSolver", "lineMeasSolver"}, method : Methods, w : Weights] :
          ~\E e \in s.store : e.name = o.name /\ e.stage = o.stage /\ e.method = o.method}
       \cup (IF s.class = "" THEN {[a |-> "classify"]} ELSE {[a |-> "next"]})
SimOps(s) == Ops(s)

Inv(s) == Len(s.models) > 0 => LET tot == FoldSet(LAMBDA i, acc : acc + Proba(s, i), 0, DOMAIN s.models)
          IN tot = 0 \/ (tot <= 10000 /\ tot > 10000 - Len(s.models))
StepOK(s, o, r) ==
  o.a = "classify" /\ r.obs.ret = "ok" =>
     /\ r.obs.best # {}
     /\ \A i \in DOMAIN s.models :
          /\ s.models[i].name \in r.obs.best => Has(s, s.models[i])
          /\ ~Has(s, s.models[i]) => r.obs.p[i] = 0
Match(a, b) ==
  /\ "ret" \in DOMAIN b
  /\ a.ret = b.ret
  /\ "stored" \in DOMAIN a =>
       /\ b.stored = a.stored
       /\ a.stored => /\ b.label \in a.best /\ Len(b.p) = Len(a.p)
                      /\ \A i \in DOMAIN a.p : AbsI(a.p[i] - b.p[i]) <= 1
                      /\ b.e = a.e /\ AbsI(b.sum - 10000) <= 0
=============================================================================
