------------------------------- MODULE LineMatch -------------------------------
(* Matching of detected lines with reference lines, the selection among the  *)
(* solutions, and the rules which discard those contradicted by the absence   *)
(* of a companion line.  Positions are integers; a detected line d seen as    *)
(* the reference line r gives 1 + z = d / r.  Histories stay away from values *)
(* at which the rounding of the code could decide, but for exactly equal ones. *)
(* det: <<position, type, force, amplitude>>; rest: <<position, type, force,  *)
(* name>>; types 1 absorption, 2 emission, 3 all; forces 1 weak, 2 strong, 3  *)
(* all; names "a", "b" for [OIII]a and b, "ha", "hb" for Halpha and Hbeta.     *)
EXTENDS Noise
CONSTANTS DetPos, RestPos, MaxDet, MaxRest, Thresholds, Ranges

\* the tolerance on 1 + z, relative, is in thousandths
InitSt == [on |-> FALSE, rest |-> <<>>, sols |-> {}, out |-> {}]

Filter(l, ty, fo) == SetToSortSeq({i \in DOMAIN l : (ty = 3 \/ l[i][2] = ty) /\ (fo = 3 \/ l[i][3] = fo)}, <)

Red(o, d, r) == o.det[d][1] >= o.rest[r][1]
\* |d1/r1 - d2/r2| <= tol * mean of both
Agree(o, p, q) == LET x == o.det[p[1]][1] * o.rest[q[2]][1]
                      y == o.det[q[1]][1] * o.rest[p[2]][1]
                  IN 2000 * AbsI(x - y) <= o.tol * (x + y)
\* companions of the pair p among the other detected lines: at each position not yet explained, the first
\* detected line and the first reference line which agree
Grow(o, p, D, E) ==
  FoldSeq(LAMBDA d, acc :
    IF d = p[1] \/ \E k \in DOMAIN acc : o.det[acc[k][1]][1] = o.det[d][1] THEN acc
    ELSE LET I == {i \in DOMAIN E : Red(o, d, E[i]) /\ Agree(o, p, <<d, E[i]>>)} IN
         IF I = {} THEN acc ELSE Append(acc, <<d, E[Min(I)]>>), <<p>>, D)
\* what tells solutions apart: position and amplitude of the detected lines, identity of the reference lines
Ident(o, s) == {<<o.det[s[k][1]][1], o.det[s[k][1]][4], s[k][2]>> : k \in DOMAIN s}
C == 100000
\* sum of 1 + z over a solution, times C
SumX(rest, t) == FoldSet(LAMBDA p, acc : acc + ((p[1] * C) \div rest[p[3]][1]), 0, t)
\* mean of z (times C) strictly between b and e
InRange(o, t) == LET n == Cardinality(t) m == SumX(o.rest, t) - n * C IN m > n * o.zb /\ m < n * o.ze

Match1(o) ==
  LET D == Filter(o.det, o.ty, o.df)
      E == Filter(o.rest, o.ty, o.rf)
      pairs == SelectSeq(FlattenSeq([i \in DOMAIN D |-> [j \in DOMAIN E |-> <<D[i], E[j]>>]]), LAMBDA p : Red(o, p[1], p[2]))
      all == [i \in DOMAIN pairs |-> IF Len(E) = 1 THEN <<pairs[i]>> ELSE Grow(o, pairs[i], D, E)]
      sets == {Ident(o, all[i]) : i \in {k \in DOMAIN all : Len(all[k]) >= o.min}}
  IN {t \in sets : InRange(o, t)}

Strong(rest, id) == \E i \in DOMAIN rest : rest[i][2] = 2 /\ rest[i][3] = 2 /\ AbsI(rest[i][1] - rest[id][1]) <= 2
\* a solution as a set of <<detected position, amplitude, reference id>>
NStrong(rest, s) == Cardinality({t \in s : Strong(rest, t[3])})
Key(rest, s) == <<NStrong(rest, s), Cardinality(s)>>
Best(rest, S) == LET T == {s \in S : Cardinality(s) >= 2} IN
  {s \in T : \A t \in T : LET a == Key(rest, s) b == Key(rest, t) IN a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])}
Most(S) == {s \in S : \A t \in S : Cardinality(s) >= Cardinality(t)}

\* ---- rules
Named(rest, t, nm) == Cardinality({q \in t : rest[q[3]][4] = nm})
\* the line of that name would be seen inside the spectrum, away from its ends
Seen(o, rest, t, nm) ==
  LET I == {i \in DOMAIN rest : rest[i][4] = nm} IN
  I # {} /\ LET x == (rest[Min(I)][1] * (SumX(rest, t) \div Cardinality(t))) \div 100 IN
            x >= (o.lb + o.win) * (C \div 100) /\ x <= (o.le - o.win) * (C \div 100)
Rule2(o, rest, t) == Named(rest, t, "b") = 1 /\ Seen(o, rest, t, "a") /\ Named(rest, t, "a") = 0
Rule3(o, rest, t) == Named(rest, t, "hb") = 1 /\ Seen(o, rest, t, "ha") /\ Named(rest, t, "ha") # 1
\* a solution of weak lines only, while a strong emission line would stand inside the spectrum where the noise
\* is less than around the weak ones, without being as visible as they are
Inside(o, rest, t, id) == LET x == (rest[id][1] * (SumX(rest, t) \div Cardinality(t))) \div 100 IN
  x >= o.lb * (C \div 100) /\ x <= o.le * (C \div 100)
Around(o, rest, t, id) ==
  LET n == Cardinality(t)
      at(k) == LET I == {i \in DOMAIN o.w : (o.w[i] - k * o.win) * (C \div 100) >=
                                            (2 * ((rest[id][1] * (SumX(rest, t) \div n)) \div 100))} IN
               IF I = {} THEN Len(o.w) - 1 ELSE Min(I) - 1
  IN Ratio([y |-> o.y, w |-> o.w, win |-> o.win, m |-> <<>>, e |-> <<>>, r |-> <<at(-1), at(1)>>])
\* ratios num / den, infinite when den = 0, undefined when both are null
Less(x, y) == x.num * y.den < y.num * x.den
Undef(x) == x.num = 0 /\ x.den = 0
Rule1(o, rest, t) ==
  LET strong == {i \in DOMAIN rest : rest[i][2] = 2 /\ rest[i][3] = 2 /\ Inside(o, rest, t, i)}
      weak == {Around(o, rest, t, q[3]) : q \in t}
      noise == Max({0} \cup {x.mad : x \in weak})
      def == {x \in weak : ~Undef(x)}
  IN /\ \A q \in t : rest[q[3]][3] # 2
     /\ \E i \in strong : LET x == Around(o, rest, t, i) IN
          ~Undef(x) /\ x.mad < noise /\ \E y \in def : Less(x, y)
Code(o, rest, t) == (IF Rule1(o, rest, t) THEN 1 ELSE 0) + (IF Rule2(o, rest, t) THEN 10 ELSE 0) + (IF Rule3(o, rest, t) THEN 100 ELSE 0)

View(S) == [ret |-> "ok", sols |-> S]
Apply(s, o) ==
  CASE o.a = "match" ->
         LET S == Match1(o) IN
         IF S = {} THEN R(InitSt, [ret |-> "none"])
         ELSE R([on |-> TRUE, rest |-> o.rest, sols |-> S, out |-> {}], View(S) @@ [rest |-> o.rest])
    [] ~s.on -> R(s, [ret |-> "ignored"])
    [] o.a = "best" ->
         R(s, IF Best(s.rest, s.sols) = {} THEN [ret |-> "no"]
              ELSE [ret |-> "ok", among |-> Best(s.rest, s.sols), rest |-> s.rest])
    [] o.a = "most" ->
         R(s, IF s.sols = {} THEN [ret |-> "no"] ELSE [ret |-> "ok", among |-> Most(s.sols), rest |-> s.rest])
    [] o.a = "over" ->
         LET T == {t \in s.sols : Cardinality(t) > o.n} IN
         R(s, View(T) @@ [rest |-> s.rest, strong |-> {<<t, NStrong(s.rest, t)>> : t \in T}])
    [] o.a = "rules" ->
         LET bad == {t \in s.sols : Code(o, s.rest, t) > 0} IN
         R([s EXCEPT !.sols = @ \ bad, !.out = @ \cup bad],
           View(s.sols \ bad) @@ [rest |-> s.rest, out |-> s.out \cup bad,
                                  codes |-> {<<t, Code(o, s.rest, t)>> : t \in bad}])

\* ---- exploration
Ops(s) ==
  IF s.on THEN {[a |-> "best"], [a |-> "most"], [a |-> "over", n |-> 1], [a |-> "rules", lb |-> 0, le |-> 90, win |-> 7, w |-> [i \in 1..24 |-> 8 * (i - 1)], y |-> [i \in 1..24 |-> IF i \in {6, 7, 8} THEN 9 * i ELSE i % 2]]}
  ELSE {[a |-> "match", det |-> [i \in DOMAIN d |-> <<d[i], 2, 1 + (i % 2), i>>],
         rest |-> [i \in DOMAIN r |-> <<r[i], 2, 1 + (i % 2), <<"hb", "ha", "b", "a">>[i]>>],
         tol |-> 31, min |-> m, zb |-> z[1], ze |-> z[2], ty |-> 2, df |-> 3, rf |-> 3] :
         d \in UNION {[1..n -> DetPos] : n \in 0..MaxDet},
         r \in UNION {{q \in [1..n -> RestPos] : \A i, j \in 1..n : i # j => q[i] # q[j]} : n \in 1..MaxRest},
         m \in Thresholds, z \in Ranges}
SimOps(s) == Ops(s)
Inv(s) == TRUE
StepOK(s, o, r) ==
  (o.a = "match" /\ r.obs.ret = "ok") =>
    LET S == r.obs.sols IN
    /\ \A t \in S :
         /\ Cardinality(t) >= o.min
         \* a detected position at most once, always redshifted, all in agreement with one of the pairs
         /\ \A p, q \in t : p # q => p[1] # q[1]
         /\ \A p \in t : p[1] >= o.rest[p[3]][1]
         /\ \E p \in t : \A q \in t :
              LET x == p[1] * o.rest[q[3]][1] y == q[1] * o.rest[p[3]][1] IN 2000 * AbsI(x - y) <= o.tol * (x + y)
    \* any two pairs which agree make a solution of two lines or more, when asked for and in range
    /\ \A d, e \in DOMAIN o.det, i, j \in DOMAIN o.rest :
         (/\ o.det[d][1] # o.det[e][1] /\ i # j /\ o.min <= 2 /\ o.ty = 2 /\ o.df = 3 /\ o.rf = 3
          /\ Red(o, d, i) /\ Red(o, e, j) /\ Agree(o, <<d, i>>, <<e, j>>))
         => LET x == (o.det[d][1] * C) \div o.rest[i][1] IN
            (x - C < o.zb + 4000 \/ x - C > o.ze - 8000) \/
            \E t \in S : <<o.det[d][1], o.det[d][4], i>> \in t /\ Cardinality(t) >= 2
Near(u, v, k) == AbsI(u - v) <= k
Sol(l) == {<<l[k][1], l[k][2], l[k][3]>> : k \in DOMAIN l}
Zs(rest, l) == \A k \in DOMAIN l : Near(l[k][4] + C, (l[k][1] * C) \div rest[l[k][3]][1], 2)
Sols(l) == {Sol(l[k]) : k \in DOMAIN l}
Mean(rest, t, z) == Near(Cardinality(t) * (z + C), SumX(rest, t), 2 * Cardinality(t) + 1)
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ "sols" \in DOMAIN a =>
       /\ Len(b.sols) = Cardinality(a.sols) /\ Sols(b.sols) = a.sols
       /\ \A k \in DOMAIN b.sols : Len(b.sols[k]) = Cardinality(Sol(b.sols[k])) /\ Zs(a.rest, b.sols[k])
       /\ \A k \in DOMAIN b.sols : Mean(a.rest, Sol(b.sols[k]), b.mean[k])
       /\ b.max = Max({0} \cup {Len(b.all[k]) : k \in DOMAIN b.all})
  /\ "strong" \in DOMAIN a => \A k \in DOMAIN b.sols : <<Sol(b.sols[k]), b.strong[k]>> \in a.strong
  /\ "out" \in DOMAIN a =>
       /\ Len(b.out) = Cardinality(a.out) /\ Sols(b.out) = a.out /\ Len(b.codes) = Len(b.out)
       /\ \A x \in a.codes : \E k \in DOMAIN b.out : Sol(b.out[k]) = x[1] /\ b.codes[k] = x[2]
  /\ "among" \in DOMAIN a => \E t \in a.among : b.n = Cardinality(t) /\ Mean(a.rest, t, b.z)
=============================================================================
