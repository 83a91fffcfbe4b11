------------------------------ MODULE PeakSearch ------------------------------
(* Search of the local maxima of a sampled curve, in a range, with a maximum *)
(* number, a separation and a threshold below the highest one.  Abscissa are *)
(* 1 + x in ticks; borders of the range in half ticks; Nan marks an undefined *)
(* sample (at the ends of the curve only).                                   *)
EXTENDS Base
CONSTANTS N, Top, Counts, Merits, Seps, Ranges

Nan == 9999
NoRange == <<0, 0>>
InitSt == [max |-> 1, merit |-> 0, sep |-> <<0, 1>>, inv |-> FALSE, border |-> TRUE, rng |-> NoRange, on |-> FALSE]

\* indices searched
Window(c, x) ==
  IF c.rng[1] = c.rng[2] THEN [err |-> "ok", b |-> 1, e |-> Len(x)]
  ELSE IF c.rng[2] < 2 * x[1] \/ c.rng[1] > 2 * Last1(x) THEN [err |-> "CRANGE_VECTBORDERS_OUTSIDERANGE"]
  ELSE LET I == {i \in DOMAIN x : 2 * x[i] >= c.rng[1] /\ 2 * x[i] <= c.rng[2]} IN
       IF I = {} THEN [err |-> "CRANGE_NO_INTERSECTION"] ELSE [err |-> "ok", b |-> Min(I), e |-> Max(I)]

\* maximal runs of equal values inside b..e which are above what surrounds them
Peaks(y, b, e, border) ==
  {p \in {<<i, j>> : i \in b..e, j \in b..e} :
     LET i == p[1]
         j == p[2] IN
     /\ i <= j /\ \A k \in i..j : y[k] = y[i]
     /\ IF i = b THEN border ELSE y[i - 1] < y[i]
     /\ IF j = e THEN border ELSE y[j] > y[j + 1]}
\* the sample standing for a plateau
Mid(p) == p[2] - ((p[2] - p[1] + 1) \div 2)
\* closer to each other than the separation sep[1]/sep[2] (half of it, each in units of 1 + z)
Close(sep, u, v) == /\ u * (sep[2] - sep[1]) <= v * (sep[2] + sep[1])
                    /\ v * (sep[2] - sep[1]) <= u * (sep[2] + sep[1])

\* the local maxima (indices) a search chooses among
Candidates(c, x, yy, b, e) ==
  LET y == [i \in DOMAIN yy |-> IF c.inv THEN -yy[i] ELSE yy[i]]
      P == {IF p[1] = p[2] THEN p[1] ELSE Mid(p) : p \in Peaks(y, b, e, c.border)}
      top == IF P = {} THEN 0 ELSE Max({y[i] : i \in P})
  IN IF c.merit > 0 THEN {i \in P : top - y[i] <= c.merit} ELSE P

Find(c, x, y, first) ==
  IF Len(x) = 0 \/ Len(x) # Len(y) THEN [err |-> "INTERNAL_ERROR"]
  ELSE LET w == Window(c, x) IN
  IF w.err # "ok" THEN w
  ELSE LET I == {i \in w.b..w.e : y[i] # Nan} IN
  IF I = {} \/ Max(I) - Min(I) < 2 THEN [err |-> "INTERNAL_ERROR"]
  ELSE LET P == Candidates(c, x, y, Min(I), Max(I)) IN
  IF P = {} /\ first THEN [err |-> "PDF_PEAK_NOT_FOUND"]
  ELSE [err |-> "ok", cand |-> {<<x[i], IF c.inv THEN -y[i] ELSE y[i]>> : i \in P}]

\* what may be returned: at each step a highest one of those left
Left(c, cand, kept) == {q \in cand : \A i \in DOMAIN kept :
                          q # kept[i] /\ (c.sep[1] > 0 => ~Close(c.sep, q[1], kept[i][1]))}
Allowed(c, cand, out) ==
  /\ \A k \in DOMAIN out :
       LET l == Left(c, cand, SubSeq(out, 1, k - 1)) IN
       out[k] \in l /\ \A q \in l : q[2] <= out[k][2]
  /\ Len(out) <= c.max
  /\ Len(out) < c.max => Left(c, cand, out) = {}

Apply(s, o) ==
  CASE o.a = "new" -> R([o.c EXCEPT !.on = TRUE], [ret |-> "ok"])
    [] o.a = "max" -> R([s EXCEPT !.max = o.v], [ret |-> "ok"])
    [] o.a = "merit" -> R([s EXCEPT !.merit = o.v], [ret |-> "ok"])
    [] o.a = "range" -> R([s EXCEPT !.rng = o.v], [ret |-> "ok"])
    [] o.a = "find" ->
         LET r == Find(s, o.x, o.y, o.first) IN
         R(s, IF r.err = "ok" THEN [ret |-> "ok", c |-> s, cand |-> r.cand] ELSE [ret |-> r.err])

Confs == {[max |-> m, merit |-> t, sep |-> p, inv |-> i, border |-> b, rng |-> NoRange, on |-> FALSE] :
            m \in Counts, t \in Merits, p \in Seps, i \in BOOLEAN, b \in BOOLEAN}
XS == [i \in 1..N |-> 64 + 2 * i]
YS == [1..N -> 0..Top]
Ops(s) ==
  IF ~s.on THEN {[a |-> "new", c |-> c] : c \in Confs}
  ELSE {[a |-> "find", x |-> XS, y |-> y, first |-> TRUE] : y \in YS}
       \cup (IF s.rng = NoRange THEN {[a |-> "range", v |-> r] : r \in Ranges} ELSE {})
SimOps(s) == Ops(s)

Inv(s) == s.max >= 1
Signed(s, v) == IF s.inv THEN -v ELSE v
\* independent statements about the set of candidates, and about a greedy choice in it
Greedy(c, cand) ==
  FoldSeq(LAMBDA k, acc : LET l == Left(c, cand, acc) IN
            IF l = {} THEN acc
            ELSE Append(acc, CHOOSE q \in l : \A z \in l : z[2] < q[2] \/ (z[2] = q[2] /\ z[1] >= q[1])),
          <<>>, [k \in 1..c.max |-> k])
StepOK(s, o, r) ==
  (o.a = "find" /\ r.obs.ret = "ok") =>
    LET y == [i \in DOMAIN o.y |-> Signed(s, o.y[i])]
        at(u) == CHOOSE i \in DOMAIN o.x : o.x[i] = u
        I == {i \in DOMAIN o.x : s.rng[1] = s.rng[2] \/ (2 * o.x[i] >= s.rng[1] /\ 2 * o.x[i] <= s.rng[2])}
        out == Greedy(s, r.obs.cand)
    IN /\ \A q \in r.obs.cand :
            LET i == at(q[1]) IN
            /\ i \in I /\ y[i] = q[2]
            /\ (i - 1 \in I => y[i - 1] <= y[i]) /\ (i + 1 \in I => y[i + 1] <= y[i])
       \* the highest value of the range is found (when the borders are admissible)
       /\ s.border => \E q \in r.obs.cand : \A i \in I : y[i] <= q[2]
       /\ Allowed(s, r.obs.cand, out)
       /\ \A i, j \in DOMAIN out : i < j => out[i][2] >= out[j][2] /\ out[i][1] # out[j][1]
       /\ out # <<>> => \A q \in r.obs.cand : q[2] <= out[1][2]
Out(c, p) == [i \in DOMAIN p |-> <<p[i][1], IF c.inv THEN -p[i][2] ELSE p[i][2]>>]
Match(a, b) == /\ "ret" \in DOMAIN b /\ a.ret = b.ret
               /\ "cand" \in DOMAIN a => Allowed(a.c, a.cand, Out(a.c, b.p)) /\ b.warn = (a.cand = {})
               /\ ("p" \in DOMAIN b) = ("cand" \in DOMAIN a)
=============================================================================
