---------------------------- MODULE LineDetected ----------------------------
(* The catalogue of detected lines: insertion order until it is sorted by    *)
(* position, then amplitude; filters keep exactly the lines asked for.       *)
EXTENDS Base
CONSTANTS Poss, AmpSet, MaxLines

InitSt == <<>>
Rec(o) == <<o.pos, o.x, o.ty, o.fo>>
Less(p, q) == \E k \in 1..4 : p[k] < q[k] /\ \A j \in 1..(k - 1) : p[j] = q[j]
Sel(l, ty, fo) == SelectSeq(l, LAMBDA r : (ty = 3 \/ r[3] = ty) /\ (fo = 3 \/ r[4] = fo))
Obs(l) == [ret |-> "ok", list |-> l, sel |-> [n \in 1..9 |-> Sel(l, 1 + ((n - 1) \div 3), 1 + ((n - 1) % 3))]]
\* type and force follow from position and amplitude, so that lines that
\* compare equal are the same
Ty(p, x) == 1 + ((p + x) % 2)
Fo(p, x) == 1 + ((p * x) % 2)
Sorted(l) == SortSeq(l, Less)
Apply(s, o) == LET t == IF o.a = "found" THEN Append(s, Rec(o)) ELSE Sorted(s) IN R(t, Obs(t))
Ops(s) == {[a |-> "sort"]} \cup (IF Len(s) >= MaxLines THEN {} ELSE
           {[a |-> "found", pos |-> p, x |-> x, ty |-> Ty(p, x), fo |-> Fo(p, x)] : p \in Poss, x \in AmpSet})
SimOps(s) == Ops(s)
Inv(s) == TRUE
StepOK(s, o, r) == /\ o.a = "sort" => \A i \in 1..(Len(s) - 1) : ~Less(r.st[i + 1], r.st[i])
                   /\ o.a = "sort" => \A e \in Range1(s) \cup Range1(r.st) :
                        Len(SelectSeq(s, LAMBDA x : x = e)) = Len(SelectSeq(r.st, LAMBDA x : x = e))
Match(e, b) == "ret" \in DOMAIN b /\ e = b
=============================================================================
