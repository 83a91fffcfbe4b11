-------------------------------- MODULE Ranges --------------------------------
(* Closed ranges and index search in sorted vectors, as mathematics defines  *)
(* them.  Values are integers (in the implementation integers or dyadic      *)
(* fractions).                                                               *)
EXTENDS Base
CONSTANTS Top, VTop, Depth

InitSt == [b |-> 0, e |-> 0, n |-> 0]

Set(b, e) == b..e
Meet(p, q) == Set(p[1], p[2]) \cap Set(q[1], q[2])
\* ranges that touch or overlap, joined
RECURSIVE Join(_)
Join(S) ==
  IF \E p, q \in S : p # q /\ Meet(p, q) # {} THEN
    LET p == CHOOSE p \in S : \E q \in S : p # q /\ Meet(p, q) # {}
        q == CHOOSE q \in S : p # q /\ Meet(p, q) # {}
    IN Join((S \ {p, q}) \cup {<<MinI(p[1], q[1]), MaxI(p[2], q[2])>>})
  ELSE S
Sorted(S) == SetToSortSeq(S, LAMBDA p, q : p[1] < q[1])
Sq(I) == SetToSortSeq(I, LAMBDA a, b : a < b)

\* all the points at the given step from one border
Spread(b, e, d, back) ==
  IF d = 0 THEN <<IF back THEN e ELSE b>>
  ELSE Sq({x \in b..e : IF back THEN (e - x) % d = 0 ELSE (x - b) % d = 0})

Closed(s, v) ==
  IF v = <<>> THEN [err |-> "EMPTY_LIST"]
  ELSE IF s.e < v[1] \/ s.b > Last1(v) THEN [err |-> "CRANGE_VECTBORDERS_OUTSIDERANGE"]
  ELSE LET I == {i \in DOMAIN v : v[i] \in Set(s.b, s.e)} IN
       IF I = {} THEN [err |-> "CRANGE_NO_INTERSECTION"] ELSE [err |-> "ok", lo |-> Min(I), hi |-> Max(I)]
Enclosing(s, v) ==
  IF v = <<>> THEN [err |-> "EMPTY_LIST"]
  ELSE IF s.b < v[1] \/ s.e > Last1(v) THEN [err |-> "CRANGE_VECTBORDERS_OUTSIDERANGE"]
  ELSE [err |-> "ok", lo |-> Max({i \in DOMAIN v : v[i] <= s.b}), hi |-> Min({i \in DOMAIN v : v[i] >= s.e})]

Ob(s, x) == [ret |-> "ok", r |-> <<s.b, s.e>>, x |-> x]
Er(s, e) == [ret |-> e, r |-> <<s.b, s.e>>]
Idx(s, c) == IF c.err = "ok" THEN Ob(s, <<c.lo - 1, c.hi - 1>>) ELSE Er(s, c.err)
B2I(x) == IF x THEN 1 ELSE 0
To(s, b, e) == [s EXCEPT !.b = b, !.e = e, !.n = @ + 1]
Ch(s, b, e, x) == LET t == To(s, b, e) IN R(t, Ob(t, x))
Sh(s, b, e) == R([s EXCEPT !.n = @ + 1], Ob(s, <<b, e>>))    \* a new range; s keeps its value

Apply(s, o) ==
  CASE o.a = "set" -> Ch(s, o.b, o.e, 0)
    [] o.a = "setbegin" -> Ch(s, o.b, s.e, 0)
    [] o.a = "setend" -> Ch(s, s.b, o.e, 0)
    [] o.a = "info" -> R(s, Ob(s, <<B2I(s.b = s.e), s.e - s.b>>))
    [] o.a = "plus" -> Sh(s, s.b + o.v, s.e + o.v)
    [] o.a = "minus" -> Sh(s, s.b - o.v, s.e - o.v)
    [] o.a = "times" -> Sh(s, s.b * o.v, s.e * o.v)
    [] o.a = "div" -> Sh(s, s.b \div o.v, s.e \div o.v)
    [] o.a = "add" -> Sh(s, s.b + o.b, s.e + o.e)
    [] o.a = "cmp" -> R(s, Ob(s, <<B2I(s.b = o.b /\ s.e = o.e), B2I(~(s.b = o.b /\ s.e = o.e)),
                                   B2I(s.b < o.b \/ (s.b = o.b /\ s.e < o.e))>>))
    [] o.a = "meets" -> R(s, Ob(s, B2I(Meet(<<s.b, s.e>>, <<o.b, o.e>>) # {})))
    [] o.a = "intersect" ->
         LET m == Meet(<<s.b, s.e>>, <<o.b, o.e>>) IN
         IF m = {} THEN Ch(s, s.b, s.e, 0) ELSE Ch(s, Min(m), Max(m), 1)
    [] o.a = "union" ->
         IF Meet(<<s.b, s.e>>, <<o.b, o.e>>) = {} THEN Ch(s, s.b, s.e, 0)
         ELSE Ch(s, MinI(s.b, o.b), MaxI(s.e, o.e), 1)
    [] o.a = "join" ->
         IF o.l = <<>> THEN R(s, Er(s, "EMPTY_LIST"))
         ELSE R(s, Ob(s, Sorted(Join(Range1(o.l)))))
    [] o.a = "clamp" -> R(s, Ob(s, IF o.v < s.b THEN s.b ELSE IF o.v > s.e THEN s.e ELSE o.v))
    [] o.a = "spread" -> R(s, Ob(s, Spread(s.b, s.e, o.d, o.back)))
    [] o.a = "closed" -> R(s, Idx(s, Closed(s, o.v)))
    [] o.a = "enclosing" -> R(s, Idx(s, Enclosing(s, o.v)))
    [] o.a = "enclosingv" ->
         IF o.x < s.b \/ o.x > s.e THEN R(s, Er(s, "CRANGE_VALUE_OUTSIDERANGE"))
         ELSE R(s, Idx(s, Enclosing(s, o.v)))
    [] o.a = "from" -> IF o.v = <<>> THEN Ch(s, 0, 0, 0) ELSE Ch(s, o.v[1], Last1(o.v), 0)
    [] o.a = "index" ->
         LET I == {i \in DOMAIN o.v : o.v[i] = o.x} IN
         R(s, IF I = {} THEN Er(s, "INTERNAL_ERROR") ELSE Ob(s, Min(I) - 1))
    [] o.a = "lower" ->
         LET I == {i \in DOMAIN o.v : o.v[i] <= o.x} IN
         R(s, Ob(s, IF I = {} THEN <<0, -1>> ELSE <<1, Max(I) - 1>>))
    [] o.a = "upper" ->
         LET I == {i \in DOMAIN o.v : o.v[i] >= o.x} IN
         R(s, Ob(s, IF I = {} THEN <<0, -1>> ELSE <<1, Min(I) - 1>>))
    [] o.a = "closer" -> R(s, Ob(s, {i - 1 : i \in {i \in DOMAIN o.v : \A j \in DOMAIN o.v :
                                         AbsI(o.v[i] - o.x) <= AbsI(o.v[j] - o.x)}}))
\* where two samples are as close either may be given
Match(a, b) == /\ "ret" \in DOMAIN b /\ a.ret = b.ret /\ "r" \in DOMAIN b /\ a.r = b.r
               /\ IF "near" \in DOMAIN b THEN b.near \in a.x
                  ELSE ("x" \in DOMAIN a) = ("x" \in DOMAIN b) /\ ("x" \in DOMAIN a => a.x = b.x)

RR == {p \in (0..Top) \X (0..Top) : p[1] <= p[2]}
VV == {Sq(S) : S \in SUBSET (0..VTop)}
Types == {"int", "float"}
Ops(s) ==
  IF s.n = 0 THEN {[a |-> "set", b |-> p[1], e |-> p[2], t |-> t] : p \in RR, t \in Types}
  ELSE UNION {
    IF s.n < Depth THEN
      {[a |-> "intersect", b |-> p[1], e |-> p[2], t |-> "float"] : p \in RR}
      \cup {[a |-> "union", b |-> p[1], e |-> p[2], t |-> "int"] : p \in RR} ELSE {},
    {[a |-> "meets", b |-> p[1], e |-> p[2], t |-> "int"] : p \in RR},
    {[a |-> "cmp", b |-> p[1], e |-> p[2], t |-> "float"] : p \in RR},
    {[a |-> "closed", v |-> v, t |-> "float"] : v \in VV},
    {[a |-> "enclosing", v |-> v, t |-> "float"] : v \in VV},
    {[a |-> "enclosingv", v |-> v, x |-> x, t |-> "float"] : v \in VV, x \in {s.b - 1, s.b, s.e, (s.b + s.e) \div 2}},
    {[a |-> "clamp", v |-> x, t |-> "int"] : x \in -1..(Top + 1)},
    {[a |-> "spread", d |-> d, back |-> k, t |-> t] : d \in 0..3, k \in BOOLEAN, t \in Types},
    {[a |-> "info", t |-> "float"]},
    IF s.b = 0 /\ s.e = 0 THEN
      {[a |-> f, v |-> v, x |-> x, t |-> "float"] :
         f \in {"index", "lower", "upper", "closer"}, v \in VV \ {<<>>}, x \in -1..(VTop + 1)} ELSE {}}
SimOps(s) == Ops(s)
Inv(s) == s.b <= s.e
StepOK(s, o, r) ==
  LET t == r.st
      x == r.obs.x
  IN CASE o.a = "intersect" -> Set(t.b, t.e) = IF x = 1 THEN Set(s.b, s.e) \cap Set(o.b, o.e) ELSE Set(s.b, s.e)
       [] o.a = "union" -> Set(t.b, t.e) = IF x = 1 THEN Set(s.b, s.e) \cup Set(o.b, o.e) ELSE Set(s.b, s.e)
       [] o.a = "closed" /\ r.obs.ret = "ok" ->
            {i - 1 : i \in {i \in DOMAIN o.v : o.v[i] \in Set(s.b, s.e)}} = x[1]..x[2]
       [] o.a = "enclosing" /\ r.obs.ret = "ok" ->
            /\ x[1] >= 0 /\ x[2] < Len(o.v) /\ o.v[x[1] + 1] <= s.b /\ o.v[x[2] + 1] >= s.e
            /\ \A i \in DOMAIN o.v : o.v[i] \in Set(s.b, s.e) => i - 1 \in x[1]..x[2]
       [] o.a = "spread" -> \A i \in DOMAIN x : x[i] \in Set(s.b, s.e)
       [] OTHER -> TRUE
=============================================================================
