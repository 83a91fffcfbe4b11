----------------------------- MODULE LogHandlers -----------------------------
(* Log handlers: objects that receive, when they are registered (at most      *)
(* Table at once, at their construction, until their destruction), every      *)
(* message whose level is at least their own.  Handlers of kind "console"     *)
(* share one output (channel "0").  Timestamps are reported as "@ ".          *)
EXTENDS Base
CONSTANTS Ids, Kinds, Levels, Texts, MaxLive, MaxThreads

Table == 8
Num == [info |-> 70, detail |-> 65, debug |-> 60, warn |-> 80, error |-> 90]
Prefix == [info |-> "Info: ", detail |-> "Detail: ", debug |-> "Debug: ", warn |-> "Warning: ", error |-> "Error: "]
Default == 80

\* handlers by identifier; on: registered
InitSt == [h |-> EmptyFn]
Live(s) == DOMAIN s.h
OnCount(s) == Cardinality({i \in Live(s) : s.h[i].on})
Hears(s, lvl) == {i \in Live(s) : s.h[i].on /\ s.h[i].level <= Num[lvl]}
Line(o) == (IF o.ts THEN "@ " ELSE "") \o Prefix[o.lvl] \o o.text
Rep(x, n) == [k \in 1..n |-> x]
NumCons(s, I) == Cardinality({i \in I : s.h[i].kind = "console"})
\* what every channel receives when each handler of I receives the sequence of messages m
Got(s, I, m) == [i \in {j \in Live(s) : s.h[j].kind # "console"} |-> IF i \in I THEN m ELSE <<>>]
                  @@ [i \in {"0"} |-> IF Len(m) = 1 THEN Rep(m[1], NumCons(s, I)) ELSE <<>>]
Obs(s, g) == [ret |-> "ok", got |-> g]
Silent(s) == Obs(s, Got(s, {}, <<>>))

Apply(s, o) ==
  CASE o.a = "new" ->
         LET n == [h |-> Put(s.h, o.h, [kind |-> o.kind, level |-> Default, on |-> OnCount(s) < Table])]
         IN R(n, Silent(n))
    [] o.a = "del" -> LET n == [h |-> Drop(s.h, o.h)] IN R(n, Silent(n))
    [] o.a = "level" -> LET n == [h |-> [s.h EXCEPT ![o.h].level = o.m]] IN R(n, Silent(n))
    [] o.a = "get" -> R(s, Silent(s) @@ [v |-> s.h[o.h].level])
    [] o.a = "log" -> R(s, Obs(s, Got(s, Hears(s, o.lvl), <<Line(o)>>)))
    \* o.n threads, each logging o.k messages; no console
    [] o.a = "burst" -> R(s, [ret |-> "ok", burst |-> [i \in Live(s) |-> i \in Hears(s, o.lvl)],
                              n |-> o.n, k |-> o.k, lvl |-> o.lvl])

OpsOf(s) ==
  {[a |-> "new", h |-> i, kind |-> k] : i \in {j \in Ids : j \notin Live(s) /\ Cardinality(Live(s)) < MaxLive}, k \in Kinds} \cup
  {[a |-> "del", h |-> i] : i \in Live(s)} \cup
  {[a |-> "get", h |-> i] : i \in Live(s)} \cup
  {[a |-> "level", h |-> i, m |-> m] : i \in Live(s), m \in Levels} \cup
  {[a |-> "log", lvl |-> l, text |-> t, ts |-> b] : l \in {"info", "detail", "debug"}, t \in Texts, b \in BOOLEAN} \cup
  {[a |-> "log", lvl |-> l, text |-> t, ts |-> TRUE] : l \in {"warn", "error"}, t \in Texts}
Ops(s) == OpsOf(s)
SimOps(s) == OpsOf(s) \cup
  (IF MaxThreads > 0 /\ \A i \in Live(s) : s.h[i].kind # "console"
   THEN {[a |-> "burst", n |-> n, k |-> 20, lvl |-> l] : n \in 2..MaxThreads, l \in {"info", "debug"}} ELSE {})

\* a burst b: every hearing handler received the messages of every thread once and in order
BurstOk(a, b) ==
  LET Want(t) == [j \in 1..a.k |-> Prefix[a.lvl] \o ToString(t) \o "." \o ToString(j)] IN
  /\ DOMAIN b.got \ {"0"} = DOMAIN a.burst
  /\ \A i \in DOMAIN a.burst :
       IF ~a.burst[i] THEN b.got[i] = <<>>
       ELSE /\ Len(b.got[i]) = a.n * a.k
            /\ \A t \in 1..a.n : SelectSeq(b.got[i], LAMBDA x : x \in Range1(Want(t))) = Want(t)
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ IF "burst" \in DOMAIN a THEN BurstOk(a, b)
     ELSE /\ a.got = b.got /\ ("v" \in DOMAIN a => a.v = b.v)

Inv(s) == OnCount(s) <= Table
StepOK(s, o, r) ==
  \* only registration changes who is registered, and nobody else's registration or level
  /\ \A i \in Live(s) \cap Live(r.st) : s.h[i].on = r.st.h[i].on /\ (o.a # "level" => s.h[i] = r.st.h[i])
  /\ o.a \in {"log", "get", "burst"} => r.st = s
  /\ o.a = "log" => \A i \in Live(s) : s.h[i].kind # "console" => Len(r.obs.got[i]) <= 1
=============================================================================
