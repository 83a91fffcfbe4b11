------------------------------ MODULE PdfGrid -------------------------------
(* A redshift PDF on a multi-resolution grid (CLogZPdfResult): construction  *)
(* from grid parameters and values, conversion to the regular coarse or fine *)
(* grid, extension of the right border, and the validity of the PDF.         *)
(* Redshifts are ticks; values are integers, Nan or Floor (-DBL_MAX).        *)
EXTENDS Base
CONSTANTS Bases, Wins, Values, MaxOps

Z == INSTANCE ZGrid WITH Los <- {}, Lens <- {}, Steps <- {}, MaxIns <- 0
Nan == -1
Floor == -2
InitSt == [ps |-> <<>>, g |-> <<>>, v |-> <<>>, tol |-> <<>>, log |-> FALSE, n |-> 0]

GridOf(ps) == LET b == Z!Grid(ps[1]) IN Z!InsAll(b, b, [i \in 1..(Len(ps) - 1) |-> Z!Grid(ps[i + 1])])
Const(n, x) == [i \in 1..n |-> x]
Regular(s) == Len(s.ps) = 1

\* linear interpolation of the curve (g, v) at x
Seg(g, x) == Min({Max({i \in DOMAIN g : g[i] <= x}), Len(g) - 1})
Interp(g, v, x) ==
  IF x < g[1] \/ x > Last1(g) THEN Nan
  ELSE LET i == Seg(g, x)
       IN IF Floor \in {v[i], v[i + 1]} THEN Floor
          ELSE v[i] + ((v[i + 1] - v[i]) * (x - g[i])) \div (g[i + 1] - g[i])
\* distance allowed to the model's value: integer division, and in logarithmic
\* sampling the curvature of the tick scale
Tol(s, x) == IF x \in Range1(s.g) \/ x > Last1(s.g) THEN 0
             ELSE LET i == Seg(s.g, x) IN 1 + (IF s.log THEN AbsI(s.v[i + 1] - s.v[i]) \div 20 ELSE 0)
OnGrid(s, t) == [s EXCEPT !.g = t, !.v = [i \in DOMAIN t |-> Interp(s.g, s.v, t[i])],
                          !.tol = [i \in DOMAIN t |-> Tol(s, t[i])]]

Obs(s, ret, x) == [ret |-> ret, x |-> x, ps |-> s.ps, g |-> s.g, v |-> s.v, tol |-> s.tol]
Twice(g, w) == FoldSet(LAMBDA k, acc : acc + (w[k] + w[k + 1]) * (g[k + 1] - g[k]), 0, 1..(Len(g) - 1))
Apply(s, o) ==
  LET t == [s EXCEPT !.n = @ + 1] IN
  CASE o.a = "new" ->
         LET r == GridOf(o.ps) IN
         IF r.err # "ok" THEN R(t, Obs(t, r.err, 0))
         ELSE IF o.v # <<>> /\ Len(o.v) # Len(r.g) THEN R(t, Obs(t, "INTERNAL_ERROR", 0))
         ELSE LET u == [t EXCEPT !.ps = o.ps, !.g = r.g, !.log = o.log, !.tol = Const(Len(r.g), 0),
                                 !.v = IF o.v = <<>> THEN Const(Len(r.g), Floor) ELSE o.v]
              IN R(u, Obs(u, "ok", 0))
    [] o.a = "convert" ->
         IF Regular(s) THEN R(t, Obs(t, "ok", 1))
         ELSE IF o.fine /\ \E i, j \in 2..Len(s.ps) : s.ps[i].step # s.ps[j].step
              THEN R(t, Obs(t, "INTERNAL_ERROR", 0))
         ELSE LET p == IF o.fine THEN [s.ps[1] EXCEPT !.step = s.ps[2].step] ELSE s.ps[1]
                  u == [OnGrid(t, Z!Grid(p)) EXCEPT !.ps = <<p>>]
              IN R(u, Obs(u, "ok", 1))
    [] o.a = "extend" ->
         IF o.z <= s.ps[1].hi THEN R(t, Obs(t, "ok", IF Regular(s) THEN 1 ELSE 0))
         ELSE LET p == [s.ps EXCEPT ![1].hi = o.z]
                  g == GridOf(p).g
                  u == [t EXCEPT !.ps = p, !.g = g,
                                 !.v = [i \in DOMAIN g |-> s.v[MinI(i, Len(s.g))]],
                                 !.tol = [i \in DOMAIN g |-> s.tol[MinI(i, Len(s.g))]]]
              IN R(u, Obs(u, "ok", IF Regular(s) THEN 1 ELSE 0))
    [] o.a = "valid" -> \* the values replaced by the logarithms of w / d
         LET two == Twice(s.g, o.w)
             ret == IF Len(s.g) < 2 THEN "INTERNAL_ERROR"
                    ELSE IF Nan \in Range1(o.w) THEN "refused" \* as flat or as invalid
                    ELSE IF Cardinality(Range1(o.w)) = 1 THEN "FLAT_ZPDF"
                    ELSE IF 10 * AbsI(two - 2 * o.d) > 2 * o.d THEN "PDF_NORMALIZATION_FAILED"
                    ELSE "ok"
             sum == IF Nan \in Range1(o.w) THEN Nan ELSE IF Len(s.g) < 2 THEN 0 ELSE (1000 * two) \div (2 * o.d)
         IN R(t, Obs(t, ret, sum))

Lists == {<<b>> : b \in Bases} \cup {<<b, w>> : b \in Bases, w \in Wins}
         \cup {<<b, w, u>> : b \in Bases, w \in Wins, u \in Wins}
Aligned(p) == (p.hi - p.lo) % p.step = 0
Ops(s) ==
  IF s.n = 0 THEN
     {[a |-> "new", ps |-> ps, v |-> v, log |-> l] :
        ps \in Lists, l \in BOOLEAN, v \in {<<>>, <<7>>}}
     \cup {[a |-> "new", ps |-> ps, log |-> l,
            v |-> [i \in DOMAIN GridOf(ps).g |-> IF i % 2 = k THEN x ELSE (i * i * 100) % 700]] :
             ps \in {q \in Lists : GridOf(q).err = "ok"}, l \in BOOLEAN, k \in {0, 1}, x \in Values}
  ELSE IF s.n >= MaxOps \/ s.g = <<>> THEN {}
  ELSE {[a |-> "convert", fine |-> f] : f \in BOOLEAN}
       \cup (IF Len(s.g) > 1 /\ Aligned(s.ps[1]) /\ \A i \in DOMAIN s.ps : s.ps[i].lo >= s.ps[1].lo /\ s.ps[i].hi <= s.ps[1].hi
             THEN {[a |-> "extend", z |-> Last1(s.g) + k] : k \in {0, 1, 4}} ELSE {})
       \cup (IF s.log THEN {} ELSE
             {[a |-> "valid", w |-> w, d |-> d] :
                w \in {[i \in DOMAIN s.g |-> (i * i) % 3], Const(Len(s.g), 2), [Const(Len(s.g), 2) EXCEPT ![1] = Nan]},
                d \in {7, 9}})
SimOps(s) == Ops(s)

Sorted(g) == \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
Inv(s) == Sorted(s.g) /\ Len(s.v) = Len(s.g)
At(s, z) == s.v[CHOOSE i \in DOMAIN s.g : s.g[i] = z]
StepOK(s, o, r) ==
  LET t == r.st IN
  CASE o.a = "new" /\ r.obs.ret = "ok" -> o.v # <<>> => t.v = o.v
    [] o.a = "convert" /\ r.obs.ret = "ok" ->
         /\ Len(t.ps) = 1 /\ t.g[1] = s.g[1] /\ \A z \in Range1(t.g) : z <= t.ps[1].hi
         /\ \A z \in Range1(t.g) \cap Range1(s.g) : At(t, z) = At(s, z)
         /\ Aligned(s.ps[1]) /\ Aligned(t.ps[1]) => Last1(t.g) = Last1(s.g)
         /\ Len(s.ps) > 1 => \A i \in 1..(Len(t.g) - 1) :
               t.g[i + 1] - t.g[i] = s.ps[IF o.fine THEN 2 ELSE 1].step
    [] o.a = "extend" ->
         /\ \A z \in Range1(s.g) : z \in Range1(t.g) /\ At(t, z) = At(s, z)
         /\ \A z \in Range1(t.g) \ Range1(s.g) : z > Last1(s.g) /\ At(t, z) = Last1(s.v)
    [] OTHER -> t.g = s.g /\ t.v = s.v /\ t.ps = s.ps
Match(a, b) ==
  /\ "ret" \in DOMAIN b
  /\ IF a.ret = "refused" THEN b.ret \in {"INTERNAL_ERROR", "FLAT_ZPDF"} ELSE a.ret = b.ret
  /\ a.ps = b.ps /\ a.g = b.g /\ Len(a.v) = Len(b.v)
  /\ \A i \in DOMAIN a.v :
       IF a.tol[i] = 0 \/ a.v[i] < 0 THEN b.v[i] = a.v[i]
       ELSE b.v[i] >= 0 /\ AbsI(a.v[i] - b.v[i]) <= a.tol[i]
  /\ IF b.kind = "sum" THEN AbsI(a.x - b.x) <= 1 ELSE a.x = b.x
=============================================================================
