-------------------------------- MODULE Base --------------------------------
(* Operators shared by the component specifications.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt,
        Functions, TLC

Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
HasKey(r, k) == k \in DOMAIN r
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Range1(s) == {s[i] : i \in DOMAIN s}
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
R(s, o) == [st |-> s, obs |-> o]
EmptyFn == [x \in {} |-> 0]
=============================================================================
