------------------------------ MODULE PdfWindows ------------------------------
(* Integration windows of the candidates of a PDF: half width given by their *)
(* uncertainty, clipped to the PDF, the overlap of neighbours split, and of  *)
(* very close candidates only the most probable kept.  Redshifts in ticks,   *)
(* borders in half ticks.                                                    *)
EXTENDS Base
CONSTANTS Hi, Halves, Probas, MaxCand

InitSt == [c |-> <<>>]
\* the window of candidate x before the others are considered
Clip(x, g) == <<2 * MaxI(x.z - x.h, g[1]), 2 * MinI(x.z + x.h, g[2])>>
Len2(w) == w[2] - w[1]
\* very close: the overlap is 30 % or more of one of the windows
Overlap(x, y, g) == LET l == IF x.z < y.z THEN x ELSE y
                         u == IF x.z < y.z THEN y ELSE x
                     IN Clip(l, g)[2] - Clip(u, g)[1]
VeryClose(x, y, g) ==
  LET ov == Overlap(x, y, g) IN
  ov > 0 /\ (10 * ov >= 3 * Len2(Clip(x, g)) \/ 10 * ov >= 3 * Len2(Clip(y, g)))
\* x is preferred to y
Before(c, i, j) == c[i].p > c[j].p \/ (c[i].p = c[j].p /\ c[i].z > c[j].z)
RECURSIVE KeepSet(_, _, _, _)
KeepSet(c, g, todo, kept) ==
  IF todo = {} THEN kept
  ELSE LET i == CHOOSE i \in todo : \A j \in todo \ {i} : Before(c, i, j) IN
       KeepSet(c, g, todo \ {i}, IF \E k \in kept : VeryClose(c[i], c[k], g) THEN kept ELSE kept \cup {i})
Kept(c, g) == KeepSet(c, g, DOMAIN c, {})
Win(c, g, i) ==
  LET w == Clip(c[i], g)
      K == Kept(c, g)
      below == {k \in K : c[k].z < c[i].z}
      above == {k \in K : c[k].z > c[i].z}
      lo == IF below = {} THEN w ELSE Clip(c[CHOOSE k \in below : \A m \in below : c[m].z <= c[k].z], g)
      up == IF above = {} THEN w ELSE Clip(c[CHOOSE k \in above : \A m \in above : c[m].z >= c[k].z], g)
  IN IF i \notin K THEN w
     ELSE <<IF below # {} /\ lo[2] > w[1] THEN (lo[2] + w[1]) \div 2 ELSE w[1],
            IF above # {} /\ up[1] < w[2] THEN (up[1] + w[2]) \div 2 ELSE w[2]>>

Apply(s, o) ==
  CASE o.a = "add" -> R([s EXCEPT !.c = Append(@, o.c)], [ret |-> "ok"])
    [] o.a = "windows" ->
         R(s, [ret |-> "ok", dup |-> DOMAIN s.c \ Kept(s.c, o.pdf),
               w |-> [i \in DOMAIN s.c |-> Win(s.c, o.pdf, i)]])
    \* the uncertainty of a candidate for which none is known: a thousandth of 1 + z (z in thousandths, the
    \* answers in millionths)
    [] o.a = "default" ->
         R(s, [ret |-> "ok", dz |-> 1000 + o.z, w |-> <<1000 * o.z - 3 * (1000 + o.z), 1000 * o.z + 3 * (1000 + o.z)>>])
Ops(s) == (IF Len(s.c) >= MaxCand THEN {}
           ELSE {[a |-> "add", c |-> [z |-> z, h |-> h, p |-> p]] :
                   z \in {z \in 0..Hi : \A i \in DOMAIN s.c : s.c[i].z < z}, h \in Halves, p \in Probas})
          \cup (IF s.c = <<>> THEN {[a |-> "default", z |-> z] : z \in 0..Hi} ELSE {})
          \cup (IF s.c = <<>> THEN {} ELSE {[a |-> "windows", pdf |-> p] : p \in {<<0, Hi>>, <<0, Hi + 4>>}})
SimOps(s) == Ops(s)
Inv(s) == TRUE
StepOK(s, o, r) ==
  o.a = "windows" =>
    LET K == DOMAIN s.c \ r.obs.dup
        w == r.obs.w
    IN /\ K # {}
       \* inside the PDF, around the candidate, and disjoint
       /\ \A i \in K : w[i][1] >= 2 * o.pdf[1] /\ w[i][2] <= 2 * o.pdf[2] /\ w[i][1] <= 2 * s.c[i].z /\ 2 * s.c[i].z <= w[i][2]
       /\ \A i, j \in K : s.c[i].z < s.c[j].z => w[i][2] <= w[j][1]
       \* never larger than the uncertainty asks for, and by no more than the overlap smaller
       /\ \A i \in K : LET f == Clip(s.c[i], o.pdf) IN
                       f[1] <= w[i][1] /\ w[i][2] <= f[2]
                       /\ ((\A j \in K \ {i} : Overlap(s.c[i], s.c[j], o.pdf) <= 0) => w[i] = f)
       \* dropped only for a better candidate which is kept
       /\ \A i \in r.obs.dup : \E k \in K : VeryClose(s.c[i], s.c[k], o.pdf) /\ s.c[k].p >= s.c[i].p
       /\ \A i \in DOMAIN s.c : (\A j \in DOMAIN s.c : s.c[j].p <= s.c[i].p /\ (j # i => s.c[j].p < s.c[i].p)) => i \in K
Match(a, b) == /\ "ret" \in DOMAIN b /\ a.ret = b.ret
               /\ "dup" \in DOMAIN a => "dup" \in DOMAIN b /\ Range1(b.dup) = a.dup /\ Len(b.dup) = Cardinality(a.dup) /\ b.w = a.w
               /\ "dz" \in DOMAIN a => "dz" \in DOMAIN b /\ b.dz = a.dz /\ b.w = a.w
=============================================================================
