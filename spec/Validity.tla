------------------------------ MODULE Validity ------------------------------
(* Validation and correction of a spectrum over a wavelength range           *)
(* (CSpectrum::ValidateSpectrum).  Sample i lies at wavelength i; range      *)
(* borders are in halves.                                                    *)
EXTENDS Base
CONSTANTS N, Samples, Lsfs

NAN == 9999
PINF == 9998
NINF == -9998
TINY == 9997      \* a noise whose weight overflows
Special == {NAN, PINF, NINF, TINY}
S(f, e) == [f |-> f, e |-> e]

InitSt == [sp |-> <<>>, lsf |-> <<>>]

GoodFlux(x) == x.f \notin Special
GoodNoise(x) == x.e \notin Special /\ x.e > 0
Good(x) == GoodFlux(x) /\ GoodNoise(x)

\* the samples at positions (in halves) within [lo, hi]
In(s, lo, hi) == {i \in DOMAIN s.sp : 2 * i >= lo /\ 2 * i <= hi}
FluxOk(s, I) == (\A i \in I : GoodFlux(s.sp[i])) /\ (\E i \in I : s.sp[i].f # 0)
NoiseOk(s, I) == \A i \in I : GoodNoise(s.sp[i])
Valids(s, I) == {i \in I : Good(s.sp[i])}

\* noise is given and read in tenths, flux in tens, so that the correction is exact
Corrected(s, I, c) ==
  LET v == Valids(s, I)
      flux == Min({AbsI(s.sp[i].f) : i \in v})
      noise == Max({s.sp[i].e : i \in v})
  IN [s EXCEPT !.sp = [i \in DOMAIN s.sp |-> IF i \in I /\ ~Good(s.sp[i]) THEN S(flux \div c, noise * c) ELSE s.sp[i]]]

Clamp(s, o) == <<MaxI(o.lo, 2), MinI(o.hi, 2 * Len(s.sp))>>
Covered(s, x) == s.lsf = <<>> \/ (x >= s.lsf[1] /\ x <= s.lsf[2])

Ret(s, r) == [ret |-> r, sp |-> s.sp]
Apply(s, o) ==
  CASE o.a = "new" -> R([sp |-> o.sp, lsf |-> o.lsf], Ret([sp |-> o.sp], "ok"))
    [] o.a = "flux" -> R(s, Ret(s, IF FluxOk(s, In(s, o.lo, o.hi)) THEN "ok" ELSE "INVALID_SPECTRUM_FLUX"))
    [] o.a = "noise" -> R(s, Ret(s, IF NoiseOk(s, In(s, o.lo, o.hi)) THEN "ok" ELSE "INVALID_NOISE"))
    [] o.a = "correct" ->
         LET I == In(s, o.lo, o.hi) IN
         IF Valids(s, I) = {} THEN R(s, Ret(s, "SPECTRUM_CORRECTION_ERROR"))
         ELSE LET t == Corrected(s, I, o.c) IN R(t, Ret(t, "ok") @@ [corrected |-> Valids(s, I) # I])
    [] o.a = "validate" ->
         LET c == Clamp(s, o)
             I == In(s, c[1], c[2])
             t == IF o.correct /\ Valids(s, I) # {} THEN Corrected(s, I, 10) ELSE s
         IN IF Len(s.sp) < 2 THEN R(s, Ret(s, "INVALID_SPECTRUM_WAVELENGTH"))
            ELSE IF c[1] >= c[2] THEN R(s, Ret(s, "INVALID_WAVELENGTH_RANGE"))
            ELSE IF o.correct /\ Valids(s, I) = {} THEN R(s, Ret(s, "SPECTRUM_CORRECTION_ERROR"))
            ELSE IF ~FluxOk(t, I) THEN R(t, Ret(t, "INVALID_SPECTRUM_FLUX"))
            ELSE IF ~NoiseOk(t, I) THEN R(t, Ret(t, "INVALID_NOISE"))
            ELSE IF ~Covered(s, c[1]) \/ ~Covered(s, c[2]) THEN R(t, Ret(t, "INVALID_LSF"))
            ELSE R(t, Ret(t, "ok"))

Match(e, b) == "ret" \in DOMAIN b /\ \A k \in DOMAIN e : k \in DOMAIN b /\ e[k] = b[k]
Inv(s) == TRUE
StepOK(s, o, r) ==
  \* only invalid samples of the range ever change
  /\ o.a # "new" => \A i \in DOMAIN s.sp : r.st.sp[i] # s.sp[i] => ~Good(s.sp[i]) /\ i \in In(s, o.lo, o.hi)
  \* a corrected spectrum passes validation unless its valid fluxes are all zero
  /\ (o.a = "correct" /\ r.obs.ret = "ok") => NoiseOk(r.st, In(s, o.lo, o.hi))
  \* what is accepted holds only valid samples, whatever the order of checks
  /\ (o.a = "validate" /\ r.obs.ret = "ok") =>
        \A i \in DOMAIN s.sp : (2 * i >= o.lo /\ 2 * i <= o.hi) => Good(r.st.sp[i])

Ranges == {[lo |-> l, hi |-> h] : l \in 0..(2 * N + 2), h \in 0..(2 * N + 2)}
Proper(s) == {r \in Ranges : r.lo <= r.hi /\ r.lo <= 2 * Len(s.sp) /\ r.hi >= 2}
\* the separate checks ask for a range with a sample in it
Hits(s) == {r \in Proper(s) : In(s, r.lo, r.hi) # {}}
News == UNION {[a : {"new"}, sp : [1..n -> Samples], lsf : Lsfs] : n \in {N}}
Ops(s) ==
  IF s.sp = <<>> THEN News
  ELSE {[a |-> "validate", lo |-> r.lo, hi |-> r.hi, correct |-> b] : r \in {x \in Ranges : x.lo < x.hi}, b \in BOOLEAN}
       \cup (IF s.lsf # <<>> THEN {} ELSE
             {[a |-> k, lo |-> r.lo, hi |-> r.hi] : k \in {"flux", "noise"}, r \in Hits(s)}
             \cup {[a |-> "correct", lo |-> r.lo, hi |-> r.hi, c |-> c] : r \in Hits(s), c \in {10, 5}})
SimOps(s) == Ops(s)
=============================================================================
