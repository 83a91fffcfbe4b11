-------------------------------- MODULE ZGrid --------------------------------
(* Redshift grids, in ticks: construction from a range and a step, possibly  *)
(* centred, insertion of refined sub-grids, and the per-redshift results     *)
(* (the tag of a point is its redshift where a result exists, 0 where it is  *)
(* to be computed).                                                          *)
EXTENDS Base
CONSTANTS Los, Lens, Steps, MaxIns

NoC == -1
InitSt == [g |-> <<>>, tag |-> <<>>, log |-> FALSE, n |-> 0]

Fwd(lo, hi, step) == [i \in 1..(1 + (hi - lo) \div step) |-> lo + step * (i - 1)]
Bwd(lo, hi, step) == LET n == 1 + (hi - lo) \div step IN [i \in 1..n |-> hi - step * (n - i)]
Grid(p) == IF p.c = NoC THEN Fwd(p.lo, p.hi, p.step)
           ELSE Bwd(p.lo, p.c, p.step) \o Tail(Fwd(p.c, p.hi, p.step))
Idx(g, lo, hi) == {i \in DOMAIN g : g[i] >= lo /\ g[i] <= hi}
\* a sub-grid crossing a border of the grid: of the samples beyond the border
\* one is kept, on the border
Clip(g, sub) ==
  LET f == g[1]
      l == Last1(g)
      lowS == {i \in DOMAIN sub : sub[i] <= f}
      a == IF lowS = {} THEN sub ELSE <<f>> \o SubSeq(sub, Max(lowS) + 1, Len(sub))
      highS == {i \in DOMAIN a : a[i] >= l}
  IN IF highS = {} THEN a ELSE SubSeq(a, 1, Min(highS) - 1) \o <<l>>
\* what inserting sub into g does
Ins(g, sub) ==
  IF Last1(sub) < g[1] \/ sub[1] > Last1(g) THEN [err |-> "CRANGE_VECTBORDERS_OUTSIDERANGE"]
  ELSE LET I == Idx(g, MaxI(sub[1], g[1]), MinI(Last1(sub), Last1(g))) IN
  IF I = {} THEN [err |-> "CRANGE_NO_INTERSECTION"]
  ELSE LET c == Clip(g, sub) IN
       [err |-> "ok", at |-> Min(I), dup |-> Cardinality(I), sub |-> c,
        g |-> SubSeq(g, 1, Min(I) - 1) \o c \o SubSeq(g, Max(I) + 1, Len(g))]
Tags(tag, r) == SubSeq(tag, 1, r.at - 1) \o [i \in DOMAIN r.sub |-> 0]
                \o SubSeq(tag, r.at + r.dup, Len(tag))
\* insertion of several sub-grids, one after the other
InsAll(g, tag, subs) ==
  FoldSeq(LAMBDA s, acc : IF acc.err # "ok" THEN acc
                          ELSE LET r == Ins(acc.g, s) IN
                               IF r.err # "ok" THEN [acc EXCEPT !.err = r.err]
                               ELSE [err |-> "ok", g |-> r.g, tag |-> Tags(acc.tag, r)],
          [err |-> "ok", g |-> g, tag |-> tag], subs)
Window(g, z, half, step) ==
  Grid([lo |-> MaxI(z - half, g[1]), hi |-> MinI(z + half, Last1(g)), step |-> step, c |-> z])

\* ("in": all redshifts are, exactly, within the range asked for)
Obs(s, ret, x) == [ret |-> ret, x |-> x, g |-> s.g, tag |-> s.tag, in |-> TRUE]
Apply(s, o) ==
  CASE o.a = "grid" ->
         LET g == Grid(o.p)
             t == [g |-> g, tag |-> g, log |-> o.log, n |-> 0] IN R(t, Obs(t, "ok", <<>>))
    [] o.a = "list" ->
         LET r == InsAll(Grid(o.ps[1]), Grid(o.ps[1]), [i \in 1..(Len(o.ps) - 1) |-> Grid(o.ps[i + 1])]) IN
         R(s, Obs(s, r.err, IF r.err = "ok" THEN <<r.g>> ELSE <<>>))
    [] o.a = "insert" ->
         LET r == Ins(s.g, Grid(o.p)) IN
         IF r.err # "ok" THEN R(s, Obs(s, r.err, <<>>))
         ELSE LET t == [s EXCEPT !.g = r.g, !.tag = Tags(@, r), !.n = @ + 1] IN
              R(t, Obs(t, "ok", <<<<r.at - 1, r.dup>>, r.sub>>))
    [] o.a = "pass" ->
         LET subs == [i \in DOMAIN o.zs |-> Window(s.g, s.g[o.zs[i]], o.half, o.step)]
             r == InsAll(s.g, s.tag, subs)
             t == [s EXCEPT !.g = r.g, !.tag = r.tag, !.n = @ + 1] IN
         IF r.err = "ok" THEN R(t, Obs(t, "ok", subs))
         ELSE R(s, Obs(s, r.err, <<>>))

Params(c) == {[lo |-> lo, hi |-> lo + len, step |-> st, c |-> NoC] : lo \in Los, len \in Lens, st \in Steps}
Centred == UNION {{[p EXCEPT !.c = c] : c \in p.lo..p.hi} : p \in Params(0)}
Ops(s) ==
  IF s.n = 0 /\ s.g = <<>> THEN
     {[a |-> "grid", p |-> p, log |-> l] : p \in Params(0) \cup Centred, l \in BOOLEAN}
     \cup {[a |-> "list", ps |-> <<p, q>>, log |-> FALSE] :
             p \in Params(0), q \in {q \in Centred : q.step = Min(Steps)}}
  ELSE IF s.n >= MaxIns THEN {}
  ELSE {[a |-> "insert", p |-> p] : p \in Centred}
       \cup {[a |-> "pass", zs |-> <<i, j>>, half |-> h, step |-> st] :
               i \in DOMAIN s.g, j \in DOMAIN s.g, h \in Lens, st \in Steps}
SimOps(s) == Ops(s)

Sorted(g) == \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
Inv(s) == /\ Sorted(s.g) /\ Len(s.tag) = Len(s.g)
          /\ \A i \in DOMAIN s.g : s.tag[i] \in {0, s.g[i]}
StepOK(s, o, r) ==
  LET t == r.st IN
  CASE o.a = "grid" ->
         /\ \A i \in DOMAIN t.g : t.g[i] \in o.p.lo..o.p.hi
         /\ \A i \in 1..(Len(t.g) - 1) : t.g[i + 1] - t.g[i] = o.p.step
         /\ Last1(t.g) + o.p.step > o.p.hi /\ t.g[1] - o.p.step < o.p.lo
         /\ IF o.p.c = NoC THEN t.g[1] = o.p.lo ELSE o.p.c \in Range1(t.g)
    [] o.a = "insert" /\ r.obs.ret = "ok" ->
         LET sub == Grid(o.p) IN
         /\ \A z \in Range1(sub) : z \in s.g[1]..Last1(s.g) => z \in Range1(t.g)
         /\ \A z \in Range1(s.g) : z \notin sub[1]..Last1(sub) => z \in Range1(t.g)
         /\ \A z \in Range1(t.g) : z \in Range1(s.g) \cup Range1(sub)
         /\ \A i \in DOMAIN r.obs.x[2] : t.g[r.obs.x[1][1] + i] = r.obs.x[2][i]
         /\ \A i \in DOMAIN t.g : t.tag[i] # 0 => \E j \in DOMAIN s.g : s.g[j] = t.g[i] /\ s.tag[j] # 0
    [] o.a = "pass" -> \A i \in DOMAIN o.zs : \* centred on the candidate, and fine around it
         r.obs.ret = "ok" => \E z \in Range1(r.obs.x[i]) : z = s.g[o.zs[i]]
    [] OTHER -> t = s
Match(a, b) == "ret" \in DOMAIN b /\ a = b
=============================================================================
