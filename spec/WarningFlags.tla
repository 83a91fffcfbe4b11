---------------------------- MODULE WarningFlags ----------------------------
(* The warnings raised since the last reset: a bit mask and a message list. *)
EXTENDS Base
CONSTANTS Codes, MaxMsgs

\* messages: what was raised, in order; via: whether the text was a plain
\* string or built from a format and arguments
Texts == [plain |-> {"", "50%d done %s", "a warning"},
          fmt |-> {"x", "100%"}]

InitSt == [msgs |-> <<>>]
Bits(s) == {s.msgs[i].code : i \in 1..Len(s.msgs)}
Obs(s) == [ret |-> "ok", bits |-> Bits(s), msgs |-> s.msgs]

TextOf(o) == IF o.via = "plain" THEN o.text ELSE "v=" \o ToString(o.code) \o " " \o o.text

Warn(s, o) == LET n == [msgs |-> Append(s.msgs, [code |-> o.code, text |-> TextOf(o)])]
              IN R(n, Obs(n))
Reset(s) == R(InitSt, Obs(InitSt))

Apply(s, o) == CASE o.a = "warn" -> Warn(s, o) [] o.a = "clear" -> Reset(s)

OpsIn(s, max) ==
  (IF Len(s.msgs) < max
   THEN {[a |-> "warn", code |-> c, via |-> "plain", text |-> t] : c \in Codes, t \in Texts.plain} \cup
        {[a |-> "warn", code |-> c, via |-> "fmt", text |-> t] : c \in Codes, t \in Texts.fmt}
   ELSE {}) \cup
  (IF Len(s.msgs) >= 1 THEN {[a |-> "clear"]} ELSE {})
Ops(s) == OpsIn(s, MaxMsgs)
SimOps(s) == OpsIn(s, MaxMsgs)

Inv(s) == Bits(s) \subseteq Codes
StepOK(s, o, r) ==
  /\ (o.a = "warn") => Bits(r.st) = Bits(s) \cup {o.code} /\ Len(r.st.msgs) = Len(s.msgs) + 1
  /\ (o.a = "clear") => Bits(r.st) = {} /\ r.st.msgs = <<>>
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ a.bits = Range1(b.bits) /\ Cardinality(a.bits) = Len(b.bits) /\ a.msgs = b.msgs
=============================================================================
