-------------------------------- MODULE TplFit --------------------------------
(* Least-squares fits of templates to spectra, in exact arithmetic.         *)
(*                                                                          *)
(* Spectra and templates are on one logarithmic grid: pixel p of a spectrum *)
(* is at rest-frame position off + p - k for redshift index k; positions    *)
(* <= 0 are blueward of Lyman alpha.  The extinctions are powers of 1/2.    *)
(* For every redshift and every pair (dust, igm) the fit has a chi-square   *)
(* S + T a^2 - 2 a C at the amplitude a = C / T, or S when that amplitude   *)
(* is refused; the result of a redshift is a pair of minimal chi-square.    *)
(*   C = sum f t w, T = sum t^2 w, S = sum f^2 w over the pixels of the     *)
(* spectra in their wavelength ranges, covered by the template, not masked. *)
(* A combination of two templates has two amplitudes: the solution of the   *)
(* normal equations.                                                        *)
(* Units: C in 1 / (4 2^top), T in 1 / (4 4^top), S in 1/4; top is the      *)
(* largest exponent of the extinctions.                                     *)
EXTENDS Base
CONSTANTS Flux, Npix, Tpl, Kinds, Flags, Los

NM == 3      \* igm curves of a redshift bin

InitSt == [sp |-> <<>>, b |-> <<>>, top |-> 4, t |-> <<<<>>, <<>>>>, op |-> <<>>]

\* ---------------------------------------------------------------- extinction
\* redshift bins: the largest bin whose lower edge is below k; the last edge
\* only ends the last bin, whose curves hold above it; 0 below the first edge
ZBin(b, k) == MinI(Cardinality({i \in DOMAIN b : b[i].m <= k}), Len(b) - 1)
NE(top) == IF top = 4 THEN 3 ELSE 2      \* dust coefficients
IgmExp(top, zb, m, r) == IF m >= 0 /\ r <= 0 THEN (zb + m - r) % (IF top = 4 THEN 3 ELSE 2) ELSE 0
DustExp(e, r) == IF e >= 0 THEN e * (r % 2) ELSE 0
Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8 ELSE 16

Covers(tp, r) == r >= tp.lo /\ r < tp.lo + Len(tp.t)
\* flux of the template at position r, extincted, in units of 1 / 2^top
TFlux(top, tp, zb, e, m, r) ==
  tp.t[r - tp.lo + 1] * Pow2(top - IgmExp(top, zb, m, r) - DustExp(e, r))

\* --------------------------------------------------------------------- sums
\* a pixel set is a set of <<spectrum, pixel>>
Pos(s, k, q) == s.sp[q[1]].off + q[2] - k
W4(sp, p, step) == (IF sp.s[p + 1] = 1 THEN 4 ELSE 1) * step
SumC(s, k, Q, tp, zb, e, m, step) ==
  FoldSet(LAMBDA q, a : a + s.sp[q[1]].f[q[2] + 1] * TFlux(s.top, tp, zb, e, m, Pos(s, k, q)) * W4(s.sp[q[1]], q[2], step), 0, Q)
SumT(s, k, Q, tp, zb, e, m, step) ==
  FoldSet(LAMBDA q, a : LET x == TFlux(s.top, tp, zb, e, m, Pos(s, k, q)) IN a + x * x * W4(s.sp[q[1]], q[2], step), 0, Q)
SumS(s, Q, step) ==
  FoldSet(LAMBDA q, a : LET x == s.sp[q[1]].f[q[2] + 1] IN a + x * x * W4(s.sp[q[1]], q[2], step), 0, Q)

\* a / b < c / d for naturals, b, d > 0
RECURSIVE RLt(_, _, _, _)
RLt(a, b, c, d) ==
  IF a \div b # c \div d THEN a \div b < c \div d
  ELSE IF c % d = 0 THEN FALSE ELSE IF a % b = 0 THEN TRUE
  ELSE RLt(d, c % d, b, a % b)

\* the amplitude C / T is refused when it is not thr * 2.5 standard deviations
\* above zero (C^2 / (4 T) is its squared significance)
Refused(c, t, thr) ==
  CASE thr = 0 -> c < 0
    [] thr = 1 -> c < 0 \/ c * c <= 25 * t
    [] thr = -1 -> c < 0 /\ c * c > 25 * t
Fit1(c, t, ss, thr) ==
  LET no == Refused(c, t, thr)
  IN [c |-> c, t |-> t, no |-> no, num |-> IF no THEN ss * t ELSE ss * t - c * c, den |-> 4 * t]
\* the chi-square in units of 1/10000
Chi(x) ==
  LET d1 == 10 * (x.num % x.den) d2 == 10 * (d1 % x.den) d3 == 10 * (d2 % x.den) d4 == 10 * (d3 % x.den)
  IN (x.num \div x.den) * 10000 + (d1 \div x.den) * 1000 + (d2 \div x.den) * 100 + (d3 \div x.den) * 10 + (d4 \div x.den)

\* --------------------------------------------------------------- the pixels
InRange(sp) == {p \in 0..(Len(sp.f) - 1) : p >= sp.lo /\ p <= sp.hi}
\* the fft fits a spectrum sampled at its redshift step: one pixel out of
\* step, the last one included
Sampled(sp, step) == {p \in InRange(sp) : (sp.hi - p) % step = 0}
Masked(s, q, k, rule) == rule > 0 /\ (s.sp[q[1]].off + q[2] + k) % 3 = rule - 1
Covered(s, i, k, tp) == {p \in InRange(s.sp[i]) : Covers(tp, s.sp[i].off + p - k)}

K(op, i) == op.k0 + (i - 1) * op.step
NoIdx == -1
Es(s, o) == IF o.dust = 0 THEN <<NoIdx>> ELSE IF o.ie >= 0 THEN <<o.ie>> ELSE [i \in 1..NE(s.top) |-> i - 1]
Ms(o) == IF o.ext = 0 THEN <<NoIdx>> ELSE IF o.im >= 0 THEN <<o.im>> ELSE [i \in 1..NM |-> i - 1]

\* the fit of one redshift; fft: over the sampled pixels, without mask
FitZ(s, o, k, fft) ==
  LET tp == s.t[o.t]
      step == IF fft THEN s.op.step ELSE 1
      Q == IF fft THEN {<<1, p>> : p \in Sampled(s.sp[1], step)}
           ELSE {q \in UNION {{<<i, p>> : p \in Covered(s, i, k, tp)} : i \in DOMAIN s.sp} : ~Masked(s, q, k, o.mask)}
      All == IF fft THEN Q ELSE UNION {{<<i, p>> : p \in Covered(s, i, k, tp)} : i \in DOMAIN s.sp}
      vis == o.ext = 1 /\ \E q \in All : Pos(s, k, q) <= 0
      zb == ZBin(s.b, k)
      ss == SumS(s, Q, step)
      es == Es(s, o)
      ms == Ms(o)
      F == [e \in Range1(es) |-> [m \in Range1(ms) |->
             Fit1(SumC(s, k, Q, tp, zb, e, m, step), SumT(s, k, Q, tp, zb, e, m, step), ss, o.thr)]]
      P == Range1(es) \X Range1(ms)
      best == {p \in P : \A q \in P : ~RLt(F[q[1]][q[2]].num, F[q[1]][q[2]].den, F[p[1]][p[2]].num, F[p[1]][p[2]].den)}
  IN [k |-> k,
      x |-> Chi(F[(CHOOSE p \in best : TRUE)[1]][(CHOOSE p \in best : TRUE)[2]]),
      best |-> {[c |-> F[p[1]][p[2]].c, t |-> F[p[1]][p[2]].t, no |-> F[p[1]][p[2]].no, e |-> p[1],
                 m |-> IF vis THEN p[2] ELSE NoIdx] : p \in best},
      \* an index fitted alone may be reported although no pixel is concerned
      lone |-> o.im,
      y |-> [i \in DOMAIN es |-> [j \in DOMAIN ms |-> Chi(F[es[i]][ms[j]])]],
      ov |-> IF fft THEN <<27720>>
             ELSE [i \in DOMAIN s.sp |-> Cardinality(Covered(s, i, k, tp)) * (27720 \div Cardinality(InRange(s.sp[i])))]]

\* ------------------------------------------------- two templates together
SumX(s, k, Q, zb, e, m) ==
  FoldSet(LAMBDA q, a : a + TFlux(s.top, s.t[1], zb, e, m, Pos(s, k, q)) * TFlux(s.top, s.t[2], zb, e, m, Pos(s, k, q))
                              * W4(s.sp[1], q[2], 1), 0, Q)
Common(s, k) == {<<1, p>> : p \in Covered(s, 1, k, s.t[1]) \cap Covered(s, 1, k, s.t[2])}
Comb1(s, k, Q, zb, e, m) ==
  LET b1 == SumC(s, k, Q, s.t[1], zb, e, m, 1)
      b2 == SumC(s, k, Q, s.t[2], zb, e, m, 1)
      a11 == SumT(s, k, Q, s.t[1], zb, e, m, 1)
      a22 == SumT(s, k, Q, s.t[2], zb, e, m, 1)
      a12 == SumX(s, k, Q, zb, e, m)
      d == a11 * a22 - a12 * a12
  IN IF d = 0 THEN [d |-> 0]
     ELSE [d |-> d, num |-> SumS(s, Q, 1) * d - b1 * b1 * a22 + 2 * b1 * b2 * a12 - b2 * b2 * a11, den |-> 4 * d,
           \* amplitudes in 1/500, their variances in 1/1000
           a |-> <<(2000 * (b1 * a22 - b2 * a12)) \div d, (2000 * (b2 * a11 - b1 * a12)) \div d>>,
           v |-> <<(64000 * a22) \div d, (64000 * a11) \div d>>]
CombZ(s, o, k) ==
  LET Q == Common(s, k)
      vis == o.ext = 1 /\ \E q \in Q : Pos(s, k, q) <= 0
      zb == ZBin(s.b, k)
      es == Es(s, o)
      ms == Ms(o)
      F == [e \in Range1(es) |-> [m \in Range1(ms) |-> Comb1(s, k, Q, zb, e, m)]]
      P == Range1(es) \X Range1(ms)
      \* a null spectrum has no scale
      sing == SumS(s, Q, 1) = 0 \/ \E p \in P : F[p[1]][p[2]].d = 0
      best == {p \in P : \A q \in P : ~RLt(F[q[1]][q[2]].num, F[q[1]][q[2]].den, F[p[1]][p[2]].num, F[p[1]][p[2]].den)}
      n1 == Cardinality(Covered(s, 1, k, s.t[2])) * (27720 \div Cardinality(InRange(s.sp[1])))
  IN IF sing THEN [k |-> k, sing |-> TRUE]
     ELSE [k |-> k, sing |-> FALSE,
           x |-> LET p == CHOOSE p \in best : TRUE IN Chi(F[p[1]][p[2]]),
           best |-> {[e |-> p[1], m |-> IF vis THEN p[2] ELSE NoIdx, a |-> F[p[1]][p[2]].a, v |-> F[p[1]][p[2]].v] : p \in best},
           y |-> [i \in DOMAIN es |-> [j \in DOMAIN ms |-> Chi(F[es[i]][ms[j]])]],
           ov |-> <<n1>>]

\* ----------------------------------------------------------------- failures
Uncov(s, i, k, tp, ov) ==
  LET n == Cardinality(Covered(s, i, k, tp))
  IN n = 0 \/ 4 * n < ov * Cardinality(InRange(s.sp[i]))
\* no extinction curve for a pixel which needs one
NoCurve(s, i, k, tp) == ZBin(s.b, k) = 0 /\ \E p \in Covered(s, i, k, tp) : s.sp[i].off + p - k <= 0
NullT(s, i, k, tp, rule) ==
  \A p \in Covered(s, i, k, tp) : Masked(s, <<i, p>>, k, rule) \/ tp.t[s.sp[i].off + p - k - tp.lo + 1] = 0
BasicFails(s, o) ==
  \E i \in DOMAIN s.sp : \E j \in 1..s.op.n :
    LET k == K(s.op, j) tp == s.t[o.t]
    IN \/ Uncov(s, i, k, tp, o.ov)
       \/ (o.ext = 1 \/ o.dust = 1) /\ NoCurve(s, i, k, tp)
\* a template which is null on the pixels cannot be fitted; whether rounding
\* hides it is not specified
BasicNull(s, o) ==
  \E i \in DOMAIN s.sp : \E j \in 1..s.op.n : NullT(s, i, K(s.op, j), s.t[o.t], o.mask)
FftFails(s, o) ==
  LET tp == s.t[o.t] sp == s.sp[1] k0 == s.op.k0 k1 == K(s.op, s.op.n)
      p0 == Min(Sampled(sp, s.op.step))
  IN \/ ~Covers(tp, sp.off + p0 - k1) \/ ~Covers(tp, sp.off + sp.hi - k0)
     \/ o.ext = 1 /\ \E j \in 1..s.op.n : ZBin(s.b, K(s.op, j)) = 0 /\ sp.off + p0 - K(s.op, j) <= 0
     \/ o.ext = 0 /\ o.dust = 1 /\ ZBin(s.b, k0) = 0 /\ sp.off + p0 - k1 <= 0

\* the templates are fitted where both are defined; no fit with less pixels
\* than amplitudes is asked for
CombFails(s, o) ==
  \E j \in 1..s.op.n : \E i \in {1, 2} :
    LET k == K(s.op, j)
    IN \/ Uncov(s, 1, k, s.t[i], o.ov)
       \/ (o.ext = 1 \/ o.dust = 1) /\ ZBin(s.b, k) = 0 /\ \E q \in Common(s, k) : Pos(s, k, q) <= 0

\* log of the likelihood constant: pixels, and halves of log 2
Cst(s, fft) ==
  LET step == IF fft THEN s.op.step ELSE 1
      Q(i) == IF fft THEN Sampled(s.sp[i], step) ELSE InRange(s.sp[i])
      D == IF fft THEN {1} ELSE DOMAIN s.sp
  IN <<FoldSet(LAMBDA i, a : a + Cardinality(Q(i)), 0, D),
       FoldSet(LAMBDA i, a : a + 2 * Cardinality({p \in Q(i) : s.sp[i].s[p + 1] = 2})
                               - (IF step = 2 THEN Cardinality(Q(i)) ELSE 0), 0, D)>>

Model(s, o) ==
  LET tp == s.t[o.t] sp == s.sp[o.s]
  IN [i \in 1..(sp.hi - sp.lo + 1) |->
       LET r == sp.off + sp.lo + i - 1 - o.k
       IN IF Covers(tp, r) THEN o.amp * TFlux(s.top, tp, ZBin(s.b, o.k), o.e, o.m, r) ELSE 0]
\* the combination amp t1 + 2 t2, where both templates are defined
CombModel(s, o) ==
  LET sp == s.sp[1]
  IN [i \in 1..(sp.hi - sp.lo + 1) |->
       LET r == sp.off + sp.lo + i - 1 - o.k
           F(j) == TFlux(s.top, s.t[j], ZBin(s.b, o.k), o.e, o.m, r)
       IN IF Covers(s.t[1], r) /\ Covers(s.t[2], r) THEN o.amp * F(1) + 2 * F(2) ELSE -1]

Ok(s) == R(s, [ret |-> "ok"])
Er(s) == R(s, [ret |-> "err"])
Apply(s, o) ==
  CASE o.a = "spec" -> Ok([s EXCEPT !.sp = o.sp, !.op = <<>>])
    [] o.a = "igm" -> Ok([s EXCEPT !.b = o.b, !.top = o.top])
    [] o.a = "tpl" -> Ok([s EXCEPT !.t[o.n] = [lo |-> o.lo, t |-> o.t]])
    [] o.a = "oper" -> Ok([s EXCEPT !.op = [kind |-> o.kind, k0 |-> o.k0, n |-> o.n, step |-> o.step]])
    [] o.a = "reds" -> Ok([s EXCEPT !.op = [kind |-> @.kind, k0 |-> o.k0, n |-> o.n, step |-> o.step]])
    [] o.a = "fit" /\ s.op.kind = "comb" ->
         IF CombFails(s, o) THEN Er(s)
         ELSE LET z == [j \in 1..s.op.n |-> CombZ(s, o, K(s.op, j))]
              IN IF \E j \in DOMAIN z : z[j].sing THEN R(s, [ret |-> "any"])
                 ELSE R(s, [ret |-> "ok", cst |-> Cst(s, FALSE), z |-> z])
    [] o.a = "model" /\ s.op.kind = "comb" ->
         IF (\E i \in {1, 2} : Uncov(s, 1, o.k, s.t[i], o.ov))
            \/ ((o.e > 0 \/ o.m >= 0) /\ ZBin(s.b, o.k) = 0 /\ \E q \in Common(s, o.k) : Pos(s, o.k, q) <= 0) THEN Er(s)
         ELSE R(s, [ret |-> "ok", w |-> TRUE, f |-> CombModel(s, o)])
    [] o.a = "fit" ->
         LET fft == s.op.kind = "fft"
         IN IF IF fft THEN FftFails(s, o) ELSE BasicFails(s, o) THEN Er(s)
            ELSE IF ~fft /\ BasicNull(s, o) THEN R(s, [ret |-> "any"])
            ELSE R(s, [ret |-> "ok", cst |-> Cst(s, fft),
                       z |-> [j \in 1..s.op.n |-> FitZ(s, o, K(s.op, j), fft)]])
    [] o.a = "model" ->
         IF Uncov(s, o.s, o.k, s.t[o.t], o.ov) \/ ((o.e > 0 \/ o.m >= 0) /\ NoCurve(s, o.s, o.k, s.t[o.t])) THEN Er(s)
         ELSE R(s, [ret |-> "ok", w |-> TRUE, f |-> Model(s, o)])

\* -------------------------------------------------------------- exploration
Bins == <<[m |-> 1, o |-> 0], [m |-> 2, o |-> 0], [m |-> 3, o |-> 0]>>
Fits ==
  {[a |-> "fit", t |-> 1, ext |-> x[1], dust |-> x[2], ie |-> x[3], im |-> x[4], thr |-> x[5], ov |-> x[6], mask |-> x[7]] :
     x \in Flags}
Ops(s) ==
  IF s.sp = <<>> THEN
    {[a |-> "spec", sp |-> <<[off |-> o, f |-> f, s |-> e, lo |-> 0, hi |-> Npix - 1]>>] :
       o \in {1, 2}, f \in [1..Npix -> Flux], e \in {[i \in 1..Npix |-> 1 + (i % 2)]}}
  ELSE IF s.b = <<>> THEN {[a |-> "igm", b |-> Bins, top |-> IF "comb" \in Kinds THEN 2 ELSE 4]}
  ELSE IF s.t[1] = <<>> THEN
    {[a |-> "tpl", n |-> 1, lo |-> lo, t |-> t] : lo \in Los, t \in [1..(Npix + 1) -> Tpl]}
  ELSE IF "comb" \in Kinds /\ s.t[2] = <<>> THEN
    {[a |-> "tpl", n |-> 2, lo |-> -1, t |-> t] : t \in {[i \in 1..(Npix + 2) |-> 1 + (i % 2)]}}
  ELSE IF s.op = <<>> THEN
    {[a |-> "oper", kind |-> k, k0 |-> 1, n |-> 2, step |-> 1] : k \in Kinds}
  ELSE Fits
SimOps(s) == Ops(s)

Inv(s) == TRUE
\* a chi-square of the result is minimal among those of its redshift, none is
\* larger than that of a null template, and more freedom never fits worse
StepOK(s, o, r) ==
  (o.a = "fit" /\ r.obs.ret = "ok" /\ s.op.kind # "comb") =>
    /\ r.st = s
    /\ \A j \in DOMAIN r.obs.z :
         LET z == r.obs.z[j]
             Q == UNION {{<<i, p>> : p \in InRange(s.sp[i])} : i \in DOMAIN s.sp}
         IN /\ z.best # {}
            /\ \A i \in DOMAIN z.y : \A m \in DOMAIN z.y[i] : z.x <= z.y[i][m] /\ z.y[i][m] >= 0
            /\ \E i \in DOMAIN z.y : \E m \in DOMAIN z.y[i] : z.x = z.y[i][m]
            /\ z.x <= (SumS(s, Q, IF s.op.kind = "fft" THEN s.op.step ELSE 1) * 10000) \div 4
            /\ (o.dust = 1 /\ o.ie < 0) =>
                 \A e \in 0..(NE(s.top) - 1) : z.x <= FitZ(s, [o EXCEPT !.ie = e], z.k, s.op.kind = "fft").x
            /\ (o.dust = 1 /\ o.ie < 0) => z.x <= FitZ(s, [o EXCEPT !.dust = 0], z.k, s.op.kind = "fft").x
            /\ o.thr = -1 => z.x <= FitZ(s, [o EXCEPT !.thr = 0], z.k, s.op.kind = "fft").x
            /\ o.thr = 0 => z.x <= FitZ(s, [o EXCEPT !.thr = 1], z.k, s.op.kind = "fft").x

Near(x, y) == AbsI(x - y) <= 1
MatchZ(e, b) ==
  /\ e.k = b.k /\ b.good /\ e.ov = b.ov
  /\ Near(e.x, b.x)
  /\ Len(e.y) = Len(b.y)
  /\ \A i \in DOMAIN e.y : /\ Len(e.y[i]) = Len(b.y[i])
                           /\ \A j \in DOMAIN e.y[i] : Near(e.y[i][j], b.y[i][j])
  /\ \E p \in e.best : /\ p.c = b.c /\ p.t = b.t /\ p.e = b.e
                       /\ (p.m = b.m \/ (p.m = NoIdx /\ b.m = e.lone))
                       /\ (p.c = 0 \/ (b.free = 0) = p.no)
\* where one template only is defined the model is not specified
CombF(e, b) == Len(e) = Len(b) /\ \A i \in DOMAIN e : e[i] = -1 \/ e[i] = b[i]
MatchC(e, b) ==
  /\ e.k = b.k
  /\ b.good /\ e.ov = b.ov
  /\ Near(e.x, b.x)
  /\ Len(e.y) = Len(b.y)
  /\ \A i \in DOMAIN e.y : /\ Len(e.y[i]) = Len(b.y[i])
                           /\ \A j \in DOMAIN e.y[i] : Near(e.y[i][j], b.y[i][j])
  /\ \E p \in e.best : /\ p.e = b.e /\ p.m = b.m
                       /\ \A i \in {1, 2} : Near(p.a[i], b.a[i]) /\ Near(p.v[i], b.v[i])
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ e.ret \in {b.ret, "any"}
  /\ IF HasKey(e, "z") THEN /\ e.cst = b.cst /\ Len(e.z) = Len(b.z)
                            /\ \A j \in DOMAIN e.z : IF HasKey(e.z[j], "sing") THEN MatchC(e.z[j], b.z[j]) ELSE MatchZ(e.z[j], b.z[j])
     ELSE HasKey(e, "f") => CombF(e.f, b.f) /\ b.w
=============================================================================
