------------------------------ MODULE PeakDetect ------------------------------
(* Detection of emission peaks: contiguous runs of samples above a threshold *)
(* computed from the running median and the median absolute deviation of the *)
(* (median smoothed) flux, without those culminating at the border of the    *)
(* spectrum, and their enlargement.  Fluxes and offsets are integers, counted *)
(* in eighths inside, so that every median is exact; wavelengths and windows *)
(* are in half ticks.  Indices are those of the code, from 0.                *)
EXTENDS Noise
CONSTANTS N, Vals, Wins, Cuts, Rates, MedLen, MedTop

InitSt == [n |-> 0]

\* ---- threshold
\* the samples of the window around the i-th, which includes its beginning and not its end, and is never empty
Window(w, i, win) ==
  LET b == At(w, w[i] - win)
      e == MaxI(b + 1, At(w, w[i] + win))
  IN <<b + 1, e>>
Above(o, y) ==
  {i \in DOMAIN y :
     LET r == Window(o.w, i, o.win)
         v == SubSeq(y, r[1], r[2])
         m == MedianOf(v)
         d == MedianOf([k \in DOMAIN v |-> AbsI(v[k] - m)]) + U * o.off
     IN 4 * y[i] > 4 * m + o.cut * d}
\* ---- peaks: maximal runs, as <<first, last>> from 0
Runs(S) == {<<i - 1, j - 1>> : i \in {k \in S : (k - 1) \notin S}, j \in {k \in S : (k + 1) \notin S}}
MaximalRuns(S) == {p \in Runs(S) : p[1] <= p[2] /\ \A k \in p[1]..p[2] : (k + 1) \in S}
Top(y, p) == LET m == Max({y[k + 1] : k \in p[1]..p[2]}) IN Min({k \in p[1]..p[2] : y[k + 1] = m})
Inside(y, p) == Top(y, p) > 1 /\ Top(y, p) < Len(y) - 1
Order(P) == SetToSortSeq(P, LAMBDA a, b : a[1] < b[1])
\* ---- enlargement
Enlarge(P, i, rate, n) ==
  LET p == P[i]
      by == rate * (p[2] + 1 - p[1])
      b == MaxI(0, p[1] - by)
      e == MinI(n, p[2] + 1 + by)
  IN <<IF i > 1 THEN MaxI(P[i - 1][2], b) ELSE b, IF i < Len(P) THEN MinI(P[i + 1][1], e) ELSE e>>

Detect(o) ==
  LET y0 == [i \in DOMAIN o.y |-> U * o.y[i]]
      y == Smooth(y0, o.hw)
      S == Above(o, y)
      P == Order({p \in MaximalRuns(S) : Inside(y, p)})
  IN IF S = {} THEN [ret |-> "none"]
     ELSE [ret |-> "ok", peaks |-> P,
           large |-> IF o.rate = 0 THEN P ELSE [i \in DOMAIN P |-> Enlarge(P, i, o.rate, Len(y))]]

Apply(s, o) ==
  CASE o.a = "ratio" -> R(s, Ratio(o))
    [] o.a = "detect" -> R(s, Detect(o))
    [] o.a = "smooth" -> R(s, [ret |-> "ok", y |-> Smooth([i \in DOMAIN o.y |-> U * o.y[i]], o.hw)])
    [] o.a = "median" ->
         R(s, IF Len(o.y) <= 1000 \/ Len(o.y) % 2 = 1 THEN [ret |-> "ok", m |-> MedianOf([i \in DOMAIN o.y |-> U * o.y[i]])]
              ELSE [ret |-> "ok", of |-> [i \in DOMAIN o.y |-> U * o.y[i]]])

Regular == [i \in 1..N |-> 2 * i]
Uneven == [i \in 1..N |-> 2 * i + (i * i) \div 2]
Ops(s) ==
  {[a |-> "detect", w |-> w, y |-> y, win |-> n, cut |-> c, hw |-> h, rate |-> r, off |-> f] :
     w \in {Regular, Uneven}, y \in [1..N -> Vals], n \in Wins, c \in Cuts, h \in {0, 1}, r \in Rates, f \in {0}}
  \cup UNION {{[a |-> "median", y |-> y] : y \in [1..n -> 0..MedTop]} : n \in 1..MedLen}
  \cup {[a |-> "median", y |-> y] : y \in [1..7 -> 0..1]} \cup {[a |-> "median", y |-> y] : y \in [1..9 -> 0..1]}
  \cup {[a |-> "ratio", w |-> Regular, y |-> [y EXCEPT ![N] = 3], win |-> n, m |-> m, e |-> e, r |-> r] :
          y \in [1..N -> Vals], n \in Wins, m \in {<<>>, [i \in 1..N |-> IF i = 3 THEN 0 ELSE 1]},
          e \in {[i \in 1..N |-> 1], [i \in 1..N |-> i]}, r \in {<<1, N - 1>>, <<2, 2>>, <<0, 3>>}}
SimOps(s) == Ops(s)

Inv(s) == TRUE
StepOK(s, o, r) ==
  /\ o.a = "median" => IsMedian(r.obs.m, [i \in DOMAIN o.y |-> U * o.y[i]])
  /\ (o.a = "detect" /\ r.obs.ret = "ok") =>
       LET P == r.obs.peaks
           L == r.obs.large
           y == Smooth([i \in DOMAIN o.y |-> U * o.y[i]], o.hw)
           S == Above(o, y)
           in(k) == \E i \in DOMAIN P : P[i][1] <= k - 1 /\ k - 1 <= P[i][2]
       IN \* nothing but samples above the threshold, runs apart from each other, in order
          /\ \A k \in DOMAIN y : in(k) => k \in S
          /\ \A i \in DOMAIN P : i > 1 => P[i][1] > P[i - 1][2] + 1
          /\ \A i \in DOMAIN P : P[i][1] <= P[i][2] /\ P[i][1] >= 0 /\ P[i][2] < Len(y)
          \* a sample above the threshold, and above everything else, away from the borders, is never lost
          /\ \A k \in S : (k > 2 /\ k < Len(y) /\ \A j \in DOMAIN y : j # k => y[j] < y[k]) => in(k)
          \* enlarged ranges stay inside the spectrum, contain their peak, stop at the neighbours
          /\ Len(L) = Len(P)
          /\ \A i \in DOMAIN P :
               /\ L[i][1] >= 0 /\ L[i][2] <= Len(y) /\ L[i][1] <= P[i][1]
               /\ L[i][2] >= (IF o.rate = 0 THEN P[i][2] ELSE P[i][2] + 1)
               /\ i > 1 => L[i][1] >= P[i - 1][2]
               /\ i < Len(P) => L[i][2] <= P[i + 1][1]
          \* a larger cut finds no new sample
          /\ LET T == Above([o EXCEPT !.cut = @ + 1], y) IN T \subseteq S
Match(a, b) == /\ "ret" \in DOMAIN b /\ a.ret = b.ret
               /\ \A k \in {"peaks", "large", "y", "m"} : k \in DOMAIN a => k \in DOMAIN b /\ a[k] = b[k]
               /\ "num" \in DOMAIN a =>
                    /\ b.top = a.top /\ b.mad = a.mad
                    /\ IF a.den = 0 THEN b.ratio = "inf" \/ (a.num = 0 /\ b.ratio = "nan")
                       ELSE b.ratio = "" /\ 2 * AbsI(b.q * a.den - 1000 * a.num) <= a.den + 2
               /\ "of" \in DOMAIN a => "m" \in DOMAIN b /\ IsMedian(b.m, a.of)
               /\ ("m" \in DOMAIN b) = ("m" \in DOMAIN a \/ "of" \in DOMAIN a)
=============================================================================
