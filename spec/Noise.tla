--------------------------------- MODULE Noise ---------------------------------
(* Medians, and the height of a peak over the noise around it.               *)
EXTENDS Base
\* fluxes are counted in eighths, so that every median is exact
U == 8
\* ---- medians
Sorted(v) == SortSeq(v, <)
\* of a sequence of multiples of 2
MedianOf(v) == LET s == Sorted(v)
                   h == Len(s) \div 2
               IN IF Len(s) % 2 = 1 THEN s[h + 1] ELSE (s[h] + s[h + 1]) \div 2
\* a value which at least half of the samples do not exceed, and which does not exceed at least half
IsMedian(m, v) == /\ 2 * Cardinality({i \in DOMAIN v : v[i] <= m}) >= Len(v)
                  /\ 2 * Cardinality({i \in DOMAIN v : v[i] >= m}) >= Len(v)
Smooth(v, h) == IF h = 0 \/ Len(v) < h + 1 THEN v
                ELSE [i \in DOMAIN v |-> MedianOf(SubSeq(v, MaxI(1, i - h), MinI(Len(v), i + h)))]

\* first sample at or after x, the last one when there is none (index from 0)
At(w, x) == LET I == {i \in DOMAIN w : w[i] >= x} IN IF I = {} THEN Len(w) - 1 ELSE Min(I) - 1
\* ---- height of a peak above the local median, over the noise (o.m: samples used, o.e: noise, o.r: range)
NoErr(o) == \A i \in DOMAIN o.e : o.e[i] = 1
Ratio(o) ==
  LET n == Len(o.y)
      K == {k \in (o.r[1] + 1)..(o.r[2] + 1) : k <= n /\ k >= 1 /\ (o.m = <<>> \/ o.m[k] = 1)}
  IN IF o.r[2] >= n \/ o.r[1] < 0 \/ K = {} THEN [ret |-> "INTERNAL_ERROR"]
     ELSE
     LET top == Max({o.y[k] : k \in K})
         c == Min({k \in K : o.y[k] = top})
         b == MaxI(o.r[1], At(o.w, o.w[c] - o.win))
         e == MinI(o.r[2], At(o.w, o.w[c] + o.win))
         I == SetToSortSeq({k \in (b + 1)..(e + 1) : o.m = <<>> \/ o.m[k] = 1}, <)
         v == [k \in DOMAIN I |-> U * o.y[I[k]]]
         med == MedianOf(v)
         mad == MedianOf([k \in DOMAIN v |-> AbsI(v[k] - med)])
         ones == \A k \in (b + 1)..(e + 1) : o.e = <<>> \/ o.e[k] = 1
         sum == U * FoldSeq(LAMBDA k, acc : acc + o.e[k], 0, I)
         mean == ~ones /\ sum > mad * Len(I)
     IN [ret |-> "ok", top |-> U * top - med, mad |-> mad,
         num |-> (U * top - med) * (IF mean THEN Len(I) ELSE 1), den |-> IF mean THEN sum ELSE mad]

================================================================================
