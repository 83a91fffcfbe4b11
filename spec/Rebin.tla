-------------------------------- MODULE Rebin --------------------------------
(* A sampled curve (spectrum or template) and its rebinning onto other grids *)
(* with the four interpolations.  Positions in units of 0.02 angstrom (the   *)
(* fine grid has a step of 5), fluxes and errors integers, results in 1/Sc.  *)
EXTENDS Base
CONSTANTS Xs, Ys, Es, Tgts, Bounds

Sc == 160
Hows == {"lin", "ngp", "spline", "preComputedFineGrid"}
InitSt == [xs |-> <<>>, ys |-> <<>>, es |-> <<>>, how |-> "lin", d |-> 0, init |-> FALSE, c |-> <<>>, t |-> "raw"]
N(s) == Len(s.xs)
\* the curve which is exposed: the selected component, dust included
Curve(s) == [i \in DOMAIN s.ys |->
               LET y == IF s.d = 1 THEN s.ys[i] \div 2 ELSE s.ys[i] IN
               CASE s.t = "raw" -> y [] s.t = "cont" -> s.c[i] [] OTHER -> y - s.c[i]]
\* the interval <<x[i], x[i+1]>> holding p (the left one at a sample)
Seg(s, p) == IF p = s.xs[1] THEN 1 ELSE CHOOSE i \in 1..(N(s) - 1) : s.xs[i] < p /\ p <= s.xs[i + 1]
Lin(s, v, p) == LET i == Seg(s, p) IN
                Sc * v[i] + (Sc * (v[i + 1] - v[i]) * (p - s.xs[i])) \div (s.xs[i + 1] - s.xs[i])
\* the samples nearest to p
Near(s, p) == {i \in DOMAIN s.xs : \A j \in DOMAIN s.xs : AbsI(s.xs[i] - p) <= AbsI(s.xs[j] - p)}
Affine(s, v) == \A i \in 2..(N(s) - 1) : (v[i + 1] - v[i]) * (s.xs[i] - s.xs[i - 1]) = (v[i] - v[i - 1]) * (s.xs[i + 1] - s.xs[i])
\* natural cubic spline of three samples
Spl3(s, v, p) ==
  LET x == s.xs
      h == x[2] - x[1]
      g == x[3] - x[2]
      k == (v[3] - v[2]) * h - (v[2] - v[1]) * g
      b == p <= x[2]
      u == IF b THEN p - x[1] ELSE x[3] - p
      w == IF b THEN h ELSE g
  IN Lin(s, v, p) + (Sc * k * u * (u * u - w * w)) \div (2 * h * g * w * (h + g))
\* known values of the natural spline: [k |-> is it determined here, v |-> value]
Spl(s, v, p) == IF p \in Range1(s.xs) \/ Affine(s, v) THEN [k |-> TRUE, v |-> Lin(s, v, p)]
                ELSE IF N(s) = 3 THEN [k |-> TRUE, v |-> Spl3(s, v, p)] ELSE [k |-> FALSE, v |-> 0]
\* the nearest position of the fine grid, inside the curve
Fine(s, p) == MinI(s.xs[1] + 5 * ((2 * (p - s.xs[1]) + 5) \div 10), s.xs[N(s)])
Flux(s, p) == LET v == Curve(s) IN
              CASE s.how = "lin" -> {[k |-> TRUE, v |-> Lin(s, v, p)]}
                [] s.how = "ngp" -> {[k |-> TRUE, v |-> Sc * v[i]] : i \in Near(s, p)}
                [] s.how = "spline" -> {Spl(s, v, p)}
                [] OTHER -> {Spl(s, v, Fine(s, p))}
\* errors of a linear or nearest interpolation: of the values, or of the variance (squared, in thousandths)
DestStep(q, j) == IF j < Len(q) THEN q[j + 1] - q[j] ELSE q[j] - q[j - 1]
SrcStep(s, i) == IF i = N(s) THEN s.xs[i] - s.xs[i - 1] ELSE s.xs[i + 1] - s.xs[i]
Err(s, err, q, j) ==
  LET p == q[j]
      i == Seg(s, p)
      g == s.xs[i + 1] - s.xs[i]
      u == p - s.xs[i]
      a == s.es[i]
      b == s.es[i + 1]
  IN CASE err = "no" -> {}
       [] s.how = "lin" /\ err = "rebin" -> {Lin(s, s.es, p)}
       [] s.how = "lin" -> {(1000 * (a * a * (g - u) * (g - u) + b * b * u * u)) \div (g * DestStep(q, j))}
       [] err = "rebin" -> {Sc * s.es[k] : k \in Near(s, p)}
       [] OTHER -> {(1000 * s.es[k] * s.es[k] * SrcStep(s, k)) \div DestStep(q, j) : k \in Near(s, p)}
In(o, j) == o.lo <= o.q[j] /\ o.q[j] <= o.hi

Apply(s, o) ==
  CASE o.a = "src" -> R([s EXCEPT !.xs = o.xs, !.ys = o.ys, !.es = o.es, !.d = 0, !.init = FALSE, !.c = <<>>, !.t = "raw"], [ret |-> "ok"])
    [] o.a = "flux" -> R([s EXCEPT !.ys = o.ys, !.es = o.es, !.d = 0, !.init = FALSE, !.c = <<>>, !.t = "raw"], [ret |-> "ok"])
    [] o.a = "wave" -> R([s EXCEPT !.xs = o.xs], [ret |-> "ok"])
    [] o.a = "err" -> R([s EXCEPT !.es = o.es], [ret |-> "ok"])
    [] o.a = "scale" -> R([s EXCEPT !.ys = [i \in DOMAIN s.ys |-> o.k * s.ys[i]], !.c = [i \in DOMAIN s.c |-> o.k * s.c[i]]],
                          [ret |-> "ok"])
    [] o.a = "dust" -> R([s EXCEPT !.d = o.k, !.init = TRUE], [ret |-> "ok"])
    [] o.a = "cont" -> R([s EXCEPT !.c = o.ys], [ret |-> "ok"])
    [] o.a = "type" -> R([s EXCEPT !.t = o.t], [ret |-> "ok"])
    [] o.a = "how" -> IF o.how \in Hows THEN R([s EXCEPT !.how = o.how], [ret |-> "ok"]) ELSE R(s, [ret |-> "INVALID_PARAMETER"])
    [] o.a = "copy" -> R(s, [ret |-> "ok"])
    [] o.a = "rebin" ->
         IF o.lo < s.xs[1] \/ o.hi > s.xs[N(s)] THEN R(s, [ret |-> "INTERNAL_ERROR"])
         ELSE IF o.err # "no" /\ s.how \in {"spline", "preComputedFineGrid"} /\ \E j \in DOMAIN o.q : In(o, j)
              THEN R(s, [ret |-> "INTERNAL_ERROR"])
         ELSE R(s, [ret |-> "ok", grid |-> o.q,
                    mask |-> [j \in DOMAIN o.q |-> IF In(o, j) THEN 1 ELSE 0],
                    flux |-> [j \in DOMAIN o.q |-> IF In(o, j) THEN Flux(s, o.q[j]) ELSE {[k |-> TRUE, v |-> 0]}],
                    err |-> [j \in DOMAIN o.q |-> IF o.err = "no" THEN {} ELSE IF In(o, j) THEN Err(s, o.err, o.q, j) ELSE {-1}]])
YY == {y \in [1..3 -> Ys] : TRUE}
Ops(s) ==
  IF s.xs = <<>> THEN {[a |-> "src", xs |-> x, ys |-> y, es |-> e] : x \in Xs, y \in YY, e \in Es}
  ELSE {[a |-> "how", how |-> h] : h \in Hows \cup {"cubic"}}
       \cup {[a |-> "rebin", q |-> q, lo |-> b[1], hi |-> b[2], err |-> e] :
               q \in Tgts, b \in Bounds, e \in IF s.t = "raw" THEN {"no", "rebin", "rebinVariance"} ELSE {"no"}}
       \cup (IF s.c = <<>> /\ \A i \in DOMAIN s.ys : s.ys[i] % 2 = 0 THEN {[a |-> "dust", k |-> k] : k \in {0, 1}} ELSE {})
       \cup (IF s.init \/ s.c # <<>> THEN {} ELSE {[a |-> "cont", ys |-> [i \in DOMAIN s.ys |-> 2 * i]]})
       \cup (IF s.c = <<>> THEN {} ELSE {[a |-> "type", t |-> t] : t \in {"raw", "cont", "nocont"}})
       \cup {[a |-> "flux", ys |-> [i \in DOMAIN s.ys |-> 4], es |-> s.es], [a |-> "copy"]}
SimOps(s) == Ops(s)
Inv(s) == Len(s.ys) = Len(s.xs) /\ Len(s.es) = Len(s.xs)
StepOK(s, o, r) ==
  o.a = "rebin" /\ r.obs.ret = "ok" =>
    \A j \in DOMAIN o.q :
      /\ (r.obs.mask[j] = 1) = In(o, j)
      \* the curve goes through its samples, and a linear one stays between its neighbours
      /\ (In(o, j) /\ s.how # "preComputedFineGrid") =>
           \A i \in DOMAIN s.xs : s.xs[i] = o.q[j] => \A f \in r.obs.flux[j] : f.k => f.v = Sc * Curve(s)[i]
      /\ (In(o, j) /\ s.how \in {"lin", "ngp"}) =>
           \A f \in r.obs.flux[j] : (\E i \in DOMAIN s.xs : Sc * Curve(s)[i] <= f.v) /\ (\E i \in DOMAIN s.xs : Sc * Curve(s)[i] >= f.v)
Near2(a, b, tol) == AbsI(a - b) <= tol
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ "grid" \in DOMAIN a =>
       /\ "grid" \in DOMAIN b /\ b.grid = a.grid /\ b.mask = a.mask
       /\ \A j \in DOMAIN a.grid :
            /\ \E f \in a.flux[j] : f.k => Near2(f.v, b.flux[j], 2)
            /\ a.err[j] # {} => \E e \in a.err[j] : Near2(e, b.err[j], IF e = -1 THEN 0 ELSE 1)
=============================================================================
