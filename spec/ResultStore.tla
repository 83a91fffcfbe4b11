---------------------------- MODULE ResultStore -----------------------------
(* The store of results: global results keyed by a dotted path of spectrum  *)
(* model, stage, method and name, and per-template results keyed by the     *)
(* template name and such a path.                                           *)
EXTENDS Base
CONSTANTS Models, Stages, Methods, Names, Tpls, MaxPut

\* scope: the open scopes, each [name, type]; n: number of results created
InitSt == [glob |-> EmptyFn, tpl |-> EmptyFn, scope |-> <<>>, n |-> 0]

Path(s) == [i \in 1..Len(s.scope) |-> s.scope[i].name]
HasType(s, t) == \E i \in 1..Len(s.scope) : s.scope[i].type = t
LevelOf(s, t) == CHOOSE i \in 1..Len(s.scope) : s.scope[i].type = t

\* everything a client can read
Full(s) == {[key |-> k, id |-> s.glob[k].id, type |-> s.glob[k].type]
              : k \in DOMAIN s.glob}
\* what is stored below a method is read from there only
Dump(s) == {t \in Full(s) : Len(t.key) <= 4}
TplDump(s) == {[tpl |-> k[1], key |-> k[2], id |-> s.tpl[k].id] : k \in DOMAIN s.tpl}

Obs(s, ret) ==
  [ret |-> ret, dump |-> Dump(s),
   tpl |-> {t \in TplDump(s) :
              Len(t.key) = Len(s.scope) + 1 /\ SubSeq(t.key, 1, Len(s.scope)) = Path(s)},
   scoped |-> {t \in Full(s) :
              Len(t.key) = Len(s.scope) + 1 /\ SubSeq(t.key, 1, Len(s.scope)) = Path(s)},
   flag |-> [context |-> <<"context_warningFlag">> \in DOMAIN s.glob,
             init |-> <<"init_warningFlag">> \in DOMAIN s.glob,
             method |-> IF HasType(s, "METHOD")
                        THEN Append(SubSeq(Path(s), 1, LevelOf(s, "METHOD")),
                                    "warningFlag") \in DOMAIN s.glob
                        ELSE FALSE]]

PutGlob(s, key, type) ==
  LET m == [s EXCEPT !.n = @ + 1] IN
  IF key \in DOMAIN s.glob
  THEN R(m, Obs(m, "INTERNAL_ERROR"))
  ELSE LET n == [m EXCEPT !.glob = Put(@, key, [id |-> m.n, type |-> type])]
       IN R(n, Obs(n, "ok"))

PutTplK(s, t, key) ==
  LET m == [s EXCEPT !.n = @ + 1] IN
  IF <<t, key>> \in DOMAIN s.tpl
  THEN R(m, Obs(m, "INTERNAL_ERROR"))
  ELSE LET n == [m EXCEPT !.tpl = Put(@, <<t, key>>, [id |-> m.n])]
       IN R(n, Obs(n, "ok"))

Clear(s) == LET n == [s EXCEPT !.glob = EmptyFn, !.tpl = EmptyFn] IN R(n, Obs(n, "ok"))
Enter(s, o) == LET n == [s EXCEPT !.scope = Append(@, [name |-> o.name, type |-> o.type])]
               IN R(n, Obs(n, "ok"))
Leave(s) == LET n == [s EXCEPT !.scope = Front1(@)] IN R(n, Obs(n, "ok"))

Apply(s, o) ==
  CASE o.a = "enter" -> Enter(s, o)
    [] o.a = "leave" -> Leave(s)
    [] o.a = "clear" -> Clear(s)
    [] o.a = "putScoped" -> PutGlob(s, Append(Path(s), o.name), o.type)
    [] o.a = "putFlag" -> PutGlob(s, Append(Path(s), o.name), "CFlagLogResult")
    [] o.a = "putAt" -> PutGlob(s, Append(o.path, o.name), o.type)
    [] o.a = "putGlobal" -> PutGlob(s, <<o.name>>, o.type)
    [] o.a = "putTplScoped" -> PutTplK(s, o.tpl, Append(Path(s), o.name))
    [] o.a = "putTplAt" -> PutTplK(s, o.tpl, Append(o.path, o.name))

RTypes == {"CLogZPdfResult", "CClassificationResult"}
Paths == {<<>>} \cup {<<m>> : m \in Models} \cup
         {<<m, t>> : m \in Models, t \in Stages} \cup
         {<<m, t, d>> : m \in Models, t \in Stages, d \in Methods}

EnterOps(s) ==
  CASE Len(s.scope) = 0 -> {[a |-> "enter", name |-> m, type |-> "SPECTRUMMODEL"] : m \in Models}
    [] Len(s.scope) = 1 -> {[a |-> "enter", name |-> m, type |-> "STAGE"] : m \in Stages}
    [] Len(s.scope) = 2 -> {[a |-> "enter", name |-> m, type |-> "METHOD"] : m \in Methods}
    [] OTHER -> {}

FlagNames == {"warningFlag", "init_warningFlag", "context_warningFlag"}

OpsIn(s, types) ==
  EnterOps(s) \cup
  (IF s.scope # <<>> THEN {[a |-> "leave"]} ELSE {}) \cup
  (IF s.glob # EmptyFn \/ s.tpl # EmptyFn THEN {[a |-> "clear"]} ELSE {}) \cup
  (IF s.n < MaxPut THEN
     {[a |-> "putScoped", name |-> n, type |-> t] : n \in Names, t \in types} \cup
     {[a |-> "putFlag", name |-> n] : n \in FlagNames} \cup
     {[a |-> "putAt", path |-> p, name |-> n, type |-> t] : p \in Paths, n \in Names, t \in types} \cup
     {[a |-> "putGlobal", name |-> n, type |-> t] : n \in Names, t \in types} \cup
     {[a |-> "putTplScoped", tpl |-> t, name |-> n] : t \in Tpls, n \in Names} \cup
     {[a |-> "putTplAt", tpl |-> t, path |-> p, name |-> n]
         : t \in Tpls, p \in Paths, n \in Names}
   ELSE {})

Ops(s) == OpsIn(s, {"CLogZPdfResult"})
\* weighted towards storing: the path operations would drown the others
SimOps(s) ==
  LET q == s.n % 4 IN
  EnterOps(s) \cup
  (IF Len(s.scope) \in {3, 4} THEN {[a |-> "enter", name |-> m, type |-> "UNDEFINED"] : m \in Models \cup Methods} ELSE {}) \cup
  (IF s.scope # <<>> THEN {[a |-> "leave"]} ELSE {}) \cup
  (IF s.n % 17 = 16 THEN {[a |-> "clear"]} ELSE {}) \cup
  {[a |-> "putScoped", name |-> n, type |-> t] : n \in Names, t \in RTypes} \cup
  {[a |-> "putFlag", name |-> n] : n \in FlagNames} \cup
  (IF q = 0 THEN {[a |-> "putAt", path |-> p, name |-> n, type |-> t] : p \in Paths, n \in Names, t \in RTypes} ELSE {}) \cup
  {[a |-> "putGlobal", name |-> n, type |-> t] : n \in Names, t \in RTypes} \cup
  {[a |-> "putTplScoped", tpl |-> t, name |-> n] : t \in Tpls, n \in Names} \cup
  (IF q = 1 THEN {[a |-> "putTplAt", tpl |-> t, path |-> p, name |-> n]
         : t \in Tpls, p \in Paths, n \in Names} ELSE {})

\* every stored result is reachable under one key only
Inv(s) ==
  /\ \A k1, k2 \in DOMAIN s.glob : s.glob[k1].id = s.glob[k2].id => k1 = k2
  /\ \A k1, k2 \in DOMAIN s.tpl : s.tpl[k1].id = s.tpl[k2].id => k1 = k2

\* nothing stored is ever replaced or lost except by clear
StepOK(s, o, r) ==
  (o.a # "clear") =>
     /\ \A k \in DOMAIN s.glob : k \in DOMAIN r.st.glob /\ r.st.glob[k] = s.glob[k]
     /\ \A k \in DOMAIN s.tpl : k \in DOMAIN r.st.tpl /\ r.st.tpl[k] = s.tpl[k]
     /\ Cardinality(DOMAIN r.st.glob) + Cardinality(DOMAIN r.st.tpl)
          <= Cardinality(DOMAIN s.glob) + Cardinality(DOMAIN s.tpl) + 1

Match(a, b) ==
  /\ "ret" \in DOMAIN b
  /\ a.ret = b.ret /\ a.flag = b.flag
  /\ a.dump = Range1(b.dump) /\ Cardinality(a.dump) = Len(b.dump)
  /\ a.scoped = Range1(b.scoped) /\ Cardinality(a.scoped) = Len(b.scoped)
  /\ a.tpl = Range1(b.tpl) /\ Cardinality(a.tpl) = Len(b.tpl)
=============================================================================
