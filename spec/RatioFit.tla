------------------------------ MODULE RatioFit ------------------------------
(* The ratio catalogue that explains the fitted amplitudes best: for every   *)
(* catalogue the scale minimising the weighted squares, and among the        *)
(* catalogues the one with the smallest remainder.  Weights are in quarters. *)
EXTENDS Base
CONSTANTS FCats, FAmps, FErrs, FIdx

InitSt == 0
W(e) == IF e \in {1, -1} THEN 4 ELSE 1      \* errors 1, -1, 2
Sum(n, f(_)) == FoldSeq(LAMBDA i, acc : acc + f(i), 0, [i \in 1..n |-> i])
\* b: the catalogue's amplitudes of the lines asked for
B(o, c) == [i \in DOMAIN o.idx |-> o.cats[c][o.idx[i] + 1]]
Cross(o, c) == LET b == B(o, c) IN Sum(Len(b), LAMBDA i : o.amps[i] * b[i] * W(o.errs[i]))
B2(o, c) == LET b == B(o, c) IN Sum(Len(b), LAMBDA i : b[i] * b[i] * W(o.errs[i]))
A2(o) == Sum(Len(o.idx), LAMBDA i : o.amps[i] * o.amps[i] * W(o.errs[i]))
\* remainder (in quarters) as a fraction
Rem(o, c) == <<A2(o) * B2(o, c) - Cross(o, c) * Cross(o, c), B2(o, c)>>
\* a catalogue that explains nothing, or everything exactly, is left out
Usable(o) == {c \in DOMAIN o.cats : Len(o.idx) > 0 /\ Cross(o, c) # 0 /\ B2(o, c) # 0}
Exact(o) == {c \in Usable(o) : Rem(o, c)[1] = 0}
LessEq(p, q) == p[1] * q[2] <= q[1] * p[2]
Best(o) == {c \in Usable(o) : \A d \in Usable(o) : LessEq(Rem(o, c), Rem(o, d))}
Scale == 10007
Lost == -999999999
\* the whole numbers nearest to n / d (two of them half way)
Div(n, d) == LET q == n \div d
                 r == n - q * d IN
             IF 2 * r < d THEN {q} ELSE IF 2 * r > d THEN {q + 1} ELSE {q, q + 1}
Corr(o, c) == [i \in DOMAIN o.idx |-> IF o.amps[i] < 0 \/ o.errs[i] <= 0 THEN {Lost}
                                      ELSE Div(Scale * B(o, c)[i] * Cross(o, c), B2(o, c))]
Obs(o) ==
  IF Exact(o) # {} THEN [ret |-> "ok", ok |-> "any"]
  ELSE IF Best(o) = {} THEN [ret |-> "ok", ok |-> "none", amps |-> [i \in DOMAIN o.idx |-> {Lost}]]
  ELSE [ret |-> "ok", ok |-> "best", best |-> {c - 1 : c \in Best(o)},
        amps |-> [c \in Best(o) |-> Corr(o, c)],
        fit |-> LET c == CHOOSE c \in Best(o) : TRUE IN Div(Scale * Rem(o, c)[1], 4 * Rem(o, c)[2])]
\* the amplitudes (in eighths) a catalogue gives to the lines of the elements:
\* its own, in the order of each element, emission elements dimmed by its dust
Pow2(n) == <<1, 2, 4, 8>>[n + 1]
Nominal(o) ==
  [c \in DOMAIN o.cats |-> [e \in DOMAIN o.elts |-> [l \in DOMAIN o.elts[e] |->
     LET i == o.elts[e][l] IN
     (8 * o.cats[c].amps[i + 1]) \div
       (IF o.ism /\ o.types[o.elts[e][1] + 1] = "E" /\ i % 2 = 1 THEN Pow2(o.cats[c].ism) ELSE 1)]]]
Apply(s, o) == R(s, IF o.a = "nominal" THEN [ret |-> "ok", nom |-> Nominal(o)] ELSE Obs(o))
Tuples(S, n) == [1..n -> S]
Ops(s) == UNION {{[a |-> "fit", cats |-> c, idx |-> ix, amps |-> am, errs |-> er] :
                    am \in Tuples(FAmps, Len(ix)), er \in Tuples(FErrs, Len(ix))} : c \in FCats, ix \in FIdx}
SimOps(s) == Ops(s)
Inv(s) == TRUE
StepOK(s, o, r) == TRUE
Near(x, y) == y \in x
Match(e, b) ==
  /\ "ret" \in DOMAIN b /\ b.ret = e.ret
  /\ CASE HasKey(e, "nom") -> e = b
       [] e.ok = "any" -> TRUE
       [] e.ok = "none" -> /\ b.best = -1 /\ b.fit = -Scale
                           /\ Len(b.amps) = Len(e.amps) /\ \A i \in DOMAIN e.amps : Near(e.amps[i], b.amps[i])
       [] OTHER -> /\ b.best \in e.best /\ Near(e.fit, b.fit)
                   /\ LET w == e.amps[b.best + 1] IN Len(w) = Len(b.amps) /\ \A i \in DOMAIN w : Near(w[i], b.amps[i])
=============================================================================
