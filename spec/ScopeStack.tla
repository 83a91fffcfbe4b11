----------------------------- MODULE ScopeStack -----------------------------
(* The stack of typed scopes (CScopeStack) and the guards that open a scope *)
(* for the duration of a block (CAutoScope).                                *)
EXTENDS Base
CONSTANTS Names, MaxStack, UseGuards

Types == {"UNDEFINED", "SPECTRUMMODEL", "STAGE", "METHOD"}
RealTypes == Types \ {"UNDEFINED"}

\* state: the scopes, innermost last, and how many of them guards hold open
InitSt == [stack |-> <<>>, guards |-> <<>>]

Levels(k, t) == {i \in 1..Len(k) : k[i].type = t}
Has(k, t) == Levels(k, t) # {}
Level(k, t) == CHOOSE i \in Levels(k, t) : TRUE

CanPush(k, t) ==
  CASE t = "UNDEFINED" -> TRUE
    [] t = "SPECTRUMMODEL" -> ~Has(k, "STAGE") /\ ~Has(k, t)
    [] t = "STAGE" -> ~Has(k, "METHOD") /\ ~Has(k, t)
    [] t = "METHOD" -> /\ ~Has(k, t)
                       /\ Len(k) > 0 /\ Last1(k).type = "STAGE"
    [] OTHER -> FALSE

\* what a client of the stack sees
View(k) ==
  [names |-> [i \in 1..Len(k) |-> k[i].name],
   cur |-> IF Len(k) = 0 THEN "UNDEFINED" ELSE Last1(k).type,
   has |-> [t \in RealTypes |-> Has(k, t)],
   level |-> [t \in RealTypes |-> IF Has(k, t) THEN Level(k, t) - 1 ELSE -1],
   value |-> [t \in RealTypes |->
                IF Has(k, t) THEN k[Level(k, t)].name ELSE ""]]

Obs(ret, s) == [ret |-> ret, v |-> View(s.stack)]

Push(s, o) ==
  IF CanPush(s.stack, o.type)
  THEN LET n == [s EXCEPT !.stack = Append(@, [name |-> o.name,
                                              type |-> o.type])]
       IN R(n, Obs("ok", n))
  ELSE R(s, Obs("SCOPESTACK_ERROR", s))

Pop(s, o) == LET n == [s EXCEPT !.stack = Front1(@)] IN R(n, Obs("ok", n))

\* a guard opens a scope now and closes it when its block ends
Open(s, o) ==
  IF CanPush(s.stack, o.type)
  THEN LET n == [stack |-> Append(s.stack, [name |-> o.name, type |-> o.type]),
                 guards |-> Append(s.guards, Len(s.stack))]
       IN R(n, Obs("ok", n))
  ELSE R(s, Obs("SCOPESTACK_ERROR", s))

\* the innermost block ends, normally or by an exception
Close(s, o) ==
  LET n == [stack |-> SubSeq(s.stack, 1, Last1(s.guards)),
            guards |-> Front1(s.guards)]
  IN R(n, Obs("ok", n))

\* an exception unwinds every open block
Unwind(s, o) ==
  LET n == [stack |-> SubSeq(s.stack, 1, s.guards[1]), guards |-> <<>>]
  IN R(n, Obs("ok", n))

Apply(s, o) ==
  CASE o.a = "push" -> Push(s, o)
    [] o.a = "pop" -> Pop(s, o)
    [] o.a = "open" -> Open(s, o)
    [] o.a = "close" -> Close(s, o)
    [] o.a = "unwind" -> Unwind(s, o)

OpsIn(s, names, max) ==
  (IF Len(s.stack) < max
   THEN {[a |-> "push", name |-> n, type |-> t] : n \in names, t \in Types} \cup
        (IF UseGuards
         THEN {[a |-> "open", name |-> n, type |-> t] : n \in names, t \in Types}
         ELSE {})
   ELSE {}) \cup
  (IF Len(s.stack) > (IF s.guards = <<>> THEN 0 ELSE Last1(s.guards) + 1)
   THEN {[a |-> "pop"]} ELSE {}) \cup
  (IF s.guards # <<>> /\ Len(s.stack) = Last1(s.guards) + 1
   THEN {[a |-> "close"]} ELSE {}) \cup
  (IF s.guards # <<>> /\ Len(s.stack) = Last1(s.guards) + 1
      /\ s.guards = [i \in 1..Len(s.guards) |-> s.guards[1] + i - 1]
   THEN {[a |-> "unwind"]} ELSE {})

Ops(s) == OpsIn(s, Names, MaxStack)
SimOps(s) == OpsIn(s, Names, MaxStack)

\* each real type occurs at most once; spectrum model, stage, method in that
\* order; a method scope directly inside its stage scope
Inv(s) ==
  LET k == s.stack IN
  /\ \A t \in RealTypes : Cardinality(Levels(k, t)) <= 1
  /\ (Has(k, "SPECTRUMMODEL") /\ Has(k, "STAGE")) =>
        Level(k, "SPECTRUMMODEL") < Level(k, "STAGE")
  /\ Has(k, "METHOD") => /\ Has(k, "STAGE")
                         /\ Level(k, "METHOD") = Level(k, "STAGE") + 1

\* a rejected operation changes nothing; closing restores the enclosing stack
StepOK(s, o, r) ==
  /\ (r.obs.ret # "ok") => r.st = s
  /\ (o.a = "close") => IsPrefix(r.st.stack, s.stack)
Match(a, b) == a = b
=============================================================================
