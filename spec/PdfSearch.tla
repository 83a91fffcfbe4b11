------------------------------ MODULE PdfSearch ------------------------------
(* From likelihood curves to ranked redshift candidates (COperatorPdfz): the *)
(* likelihoods (integers, per tick) are combined into a PDF on the grid made *)
(* of a base range and refined windows, its peaks are searched in each       *)
(* window, integrated, and ranked.  1 + z in ticks.                          *)
EXTENDS Base
CONSTANTS Lo, Hi, Top, Maxes, Seps

Z == INSTANCE ZGrid WITH Los <- {}, Lens <- {}, Steps <- {}, MaxIns <- 0
P == INSTANCE PeakSearch WITH N <- 0, Top <- 0, Counts <- {}, Merits <- {}, Seps <- {}, Ranges <- {}

InitSt == [n |-> 0]

At(o, tab, u) == tab[u - o.base.lo + 1]
Models(o) == DOMAIN o.ws
W(o, m, u) == At(o, o.ws[m], u)
Q(o, u) == IF o.q = <<>> THEN 1 ELSE At(o, o.q, u)
Pi(o, m) == IF o.mp = <<>> THEN 1 ELSE o.mp[m]
Total(F(_), S) == FoldSet(LAMBDA m, acc : acc + F(m), 0, S)
\* unnormalised PDF at u
Num(o, u) ==
  CASE o.how = "marg" -> Q(o, u) * Total(LAMBDA m : Pi(o, m) * W(o, m, u), Models(o))
    [] o.how = "bestChi2" -> Max({W(o, m, u) : m \in Models(o)})
    [] o.how = "bestproba" -> Q(o, u) * W(o, 1, u)
\* twice the trapezoidal integral of f over the points i..j of g
Trap(g, f, i, j) == FoldSet(LAMBDA k, acc : acc + (f[k] + f[k + 1]) * (g[k + 1] - g[k]), 0, i..(j - 1))

Grid(o) == LET b == Z!Grid(o.base) IN Z!InsAll(b, b, [i \in DOMAIN o.subs |-> Z!Grid(o.subs[i])])
First(o) == o.subs = <<>>
Windows(o) == IF First(o) THEN <<P!NoRange>>
              ELSE [i \in DOMAIN o.subs |-> <<2 * o.subs[i].lo, 2 * o.subs[i].hi>>]
Conf(o, w) == [max |-> o.pw, merit |-> 0, sep |-> o.sep, inv |-> FALSE, border |-> o.border, rng |-> w, on |-> TRUE]
\* the peaks of a window which are high enough
High(o, f) == IF f.err # "ok" THEN f
              ELSE LET top == IF f.cand = {} THEN 0 ELSE Max({c[2] : c \in f.cand}) IN
                   [f EXCEPT !.cand = IF o.merit = 0 THEN @ ELSE {c \in @ : top * 100 <= c[2] * (100 * o.merit + 37)}]
Peaks(o, g, num) == LET ws == Windows(o) IN
  [i \in DOMAIN ws |-> High(o, P!Find(Conf(o, ws[i]), g, num, Len(ws) = 1))]

Run(o) ==
  LET gr == Grid(o) IN
  IF gr.err # "ok" THEN [ret |-> gr.err]
  ELSE IF Cardinality(Models(o)) # Len(o.mp) /\ o.mp # <<>> THEN [ret |-> "INTERNAL_ERROR"]
  ELSE LET g == gr.g
           num == [i \in DOMAIN g |-> Num(o, g[i])]
           two == IF o.how = "bestproba" THEN 2 * (g[2] - g[1]) * Total(LAMBDA i : num[i], DOMAIN g)
                  ELSE Trap(g, num, 1, Len(g))
           gaps == {g[i + 1] - g[i] : i \in 1..(Len(g) - 1)}
           pk == Peaks(o, g, num)
           bad == {i \in DOMAIN pk : pk[i].err # "ok"}
       IN IF o.how = "bestproba" /\ Cardinality(gaps) > 1 THEN [ret |-> "INTERNAL_ERROR"]
          ELSE IF Cardinality(Range1(num)) = 1 THEN [ret |-> "FLAT_ZPDF"]
          ELSE IF 10 * AbsI(two - Trap(g, num, 1, Len(g))) > two THEN [ret |-> "PDF_NORMALIZATION_FAILED"]
          ELSE IF bad # {} THEN [ret |-> pk[Min(bad)].err]
          ELSE IF \A i \in DOMAIN pk : pk[i].cand = {} THEN [ret |-> "PDF_PEAK_NOT_FOUND"]
          ELSE [ret |-> "ok", o |-> o, g |-> g, num |-> num, two |-> two, cand |-> [i \in DOMAIN pk |-> pk[i].cand]]

Apply(s, o) == R([s EXCEPT !.n = 1], Run(o))

--------------------------------------------------------------------------------
\* what may be reported (b) for the PDF a
Pos(g, u) == CHOOSE i \in DOMAIN g : g[i] = u
Dup(r) == r.lo = -1
Near(x, y, tol) == AbsI(x - y) <= tol
PdfOk(a, b) == Len(b.pdf) = Len(a.g)
               /\ \A i \in DOMAIN a.g : Near(b.pdf[i] * a.two, 20000 * a.num[i], a.two)
S2(a, r) == IF Dup(r) THEN 0 ELSE Trap(a.g, a.num, Pos(a.g, r.lo), Pos(a.g, r.hi))
\* border of the grid interval enclosing x (thousandths of ticks)
EncLo(g, x) == LET B == {i \in DOMAIN g : 1000 * g[i] <= x} IN IF B = {} THEN g[1] ELSE g[Max(B)]
EncHi(g, x) == LET B == {i \in DOMAIN g : 1000 * g[i] >= x} IN IF B = {} THEN Last1(g) ELSE g[Min(B)]
H3(r) == 3 * r.dz
Apart(r, q, tol) == 1000 * AbsI(r.u - q.u) > H3(r) + H3(q) + tol
\* the uncertainty of a candidate, where the likelihoods are powers of 2 (exponents e):
\* that of the parabola through the peak, on 5 then 2 samples on each side
Parab(a, e, i, half) ==
  LET I == MaxI(i - half, 1)..MinI(i + half, Len(a.g))
      x2(k) == (a.g[k] - a.g[i]) * (a.g[k] - a.g[i])
  IN [num |-> Total(LAMBDA k : x2(k) * x2(k), I), den |-> Total(LAMBDA k : x2(k) * (e[i] - e[k]), I),
      flat |-> \A k \in I : e[k] = e[i]]
DzOk(a, r) ==
  LET e == [k \in DOMAIN a.g |-> At(a.o, a.o.pow, a.g[k])]
      i == Pos(a.g, r.u)
      p5 == Parab(a, e, i, 5)
      p2 == Parab(a, e, i, 2)
      Is(p) == Near(r.q * p.den, 100 * p.num, p.den)
  IN CASE p5.den > 0 -> Is(p5)
       [] p5.den = 0 /\ ~p5.flat -> TRUE         \* rounding decides
       [] p2.den > 0 -> Is(p2)
       [] p2.den = 0 /\ ~p2.flat -> TRUE
       [] OTHER -> r.dz = 64
CandsOk(a, c) ==
  /\ c # <<>>
  \* the candidates of each window are a choice of its peaks, best first, each once
  /\ \A w \in DOMAIN a.cand :
       LET I == {i \in DOMAIN c : c[i].par = w}
           out == [k \in 1..Cardinality(I) |-> c[CHOOSE i \in I : c[i].i = k - 1]]
       IN /\ \A k \in 1..Cardinality(I) : \E i \in I : c[i].i = k - 1
          /\ P!Allowed(Conf(a.o, P!NoRange), a.cand[w], [k \in DOMAIN out |-> <<out[k].u, a.num[Pos(a.g, out[k].u)]>>])
  /\ \A i \in DOMAIN c : c[i].par \in DOMAIN a.cand
  \* each has its own PDF value and integral, and they are ranked
  /\ \A i \in DOMAIN c : LET r == c[i] IN
       /\ r.rank = i - 1
       /\ Near(r.p * a.two, 20000 * a.num[Pos(a.g, r.u)], a.two)
       /\ Near(r.sum * a.two, 10000 * S2(a, r), a.two)
       /\ i > 1 => S2(a, c[i - 1]) >= S2(a, r)
  /\ LET K == {i \in DOMAIN c : ~Dup(c[i])} IN
     /\ \A i \in K : LET r == c[i] IN
          /\ r.lo \in Range1(a.g) /\ r.hi \in Range1(a.g) /\ r.lo <= r.u /\ r.u <= r.hi
          /\ r.lo >= EncLo(a.g, 1000 * r.u - H3(r) - 6) /\ r.hi <= EncHi(a.g, 1000 * r.u + H3(r) + 6)
          /\ (\A j \in K \ {i} : Apart(r, c[j], 6)) =>
               /\ r.lo \in {EncLo(a.g, 1000 * r.u - H3(r) - 6), EncLo(a.g, 1000 * r.u - H3(r) + 6)}
               /\ r.hi \in {EncHi(a.g, 1000 * r.u + H3(r) - 6), EncHi(a.g, 1000 * r.u + H3(r) + 6)}
          \* windows share at most the grid interval where they meet
          /\ \A j \in K : c[j].u > r.u => Pos(a.g, r.hi) - Pos(a.g, c[j].lo) <= 1
     /\ \A i \in DOMAIN c \ K : \E j \in K :
          a.num[Pos(a.g, c[j].u)] >= a.num[Pos(a.g, c[i].u)] /\ ~Apart(c[i], c[j], 6)
     /\ \E i \in K : \A j \in DOMAIN c : a.num[Pos(a.g, c[j].u)] <= a.num[Pos(a.g, c[i].u)]
  /\ a.o.pow # <<>> => \A i \in DOMAIN c : DzOk(a, c[i])
\* the first o.max of them are returned, in the same order
TopOk(a, c, top) == top = [k \in 1..MinI(a.o.max, Len(c)) |-> <<c[k].par, c[k].i>>]
SmallOk(a, c, small) ==
  small = (~First(a.o) /\ \E k \in 1..MinI(a.o.max, Len(c)) :
             ~Dup(c[k]) /\ (c[k].lo < a.o.subs[c[k].par].lo \/ c[k].hi > a.o.subs[c[k].par].hi))
\* evidence: twice the integral of likelihood times prior over that of the prior
EvOk(a, b) ==
  a.o.how = "marg" =>
    LET q == [i \in DOMAIN a.g |-> Q(a.o, a.g[i])]
        n == Total(LAMBDA m : Pi(a.o, m), Models(a.o))
    IN Near(b.ev * (Trap(a.g, q, 1, Len(a.g)) * n), 1000 * a.two, Trap(a.g, q, 1, Len(a.g)) * n)
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ ("pdf" \in DOMAIN b) = ("g" \in DOMAIN a)
  /\ "g" \in DOMAIN a =>
       /\ PdfOk(a, b) /\ EvOk(a, b) /\ CandsOk(a, b.c) /\ TopOk(a, b.c, b.top) /\ SmallOk(a, b.c, b.small)
       /\ b.none = (Len(a.cand) > 1 /\ \E w \in DOMAIN a.cand : a.cand[w] = {})

Ops(s) == IF s.n = 1 THEN {}
          ELSE {[a |-> "compute", base |-> [lo |-> Lo, hi |-> Hi, step |-> 1, c |-> Z!NoC], subs |-> <<>>,
                 ws |-> <<w>>, q |-> <<>>, mp |-> <<>>, how |-> "marg", sep |-> sp, merit |-> mt, border |-> TRUE,
                 max |-> mx, pw |-> mx, pow |-> <<>>] :
                  w \in [1..(Hi - Lo + 1) -> 1..Top], sp \in Seps, mt \in {0, 1}, mx \in Maxes}
SimOps(s) == Ops(s)
Inv(s) == TRUE
StepOK(s, o, r) ==
  r.obs.ret = "ok" =>
    LET a == r.obs IN
    /\ \A i \in 1..(Len(a.g) - 1) : a.g[i] < a.g[i + 1]
    /\ \A w \in DOMAIN a.cand : \A c \in a.cand[w] : c[1] \in Range1(a.g)
    \* the most probable redshift is a candidate
    /\ First(o) /\ o.border => \E c \in a.cand[1] : \A i \in DOMAIN a.num : a.num[i] <= c[2]
=============================================================================
