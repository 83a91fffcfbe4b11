----------------------------- MODULE LineElts ------------------------------
(* The line model of one or two spectra at a redshift: which samples support *)
(* the lines of each element, the amplitude that fits an element, the model  *)
(* spectrum and what is derived from it.  Axes have a step of one, so that   *)
(* wavelengths are indexes; a line has the profile max(0, 1 - |d| / 4w) with *)
(* w the width of the line-spread function, and a window of ns times w.      *)
(* Amplitudes are in quarters, fluxes in 1/32.                               *)
EXTENDS Base
CONSTANTS Models, Amps, Reds, MaxOps

Nan == -99999999
InitSt == [ok |-> FALSE, n |-> 0, z |-> 0, w |-> 1, sp |-> <<>>, el |-> <<>>, on |-> FALSE,
           flux |-> <<>>, cont |-> <<>>, spc |-> <<>>, noc |-> <<>>]

\* -------------------------------------------------------------- composition
Filter(ls, P(_)) == SelectSeq(ls, P)
Numbered(ls) == [i \in DOMAIN ls |-> [pos |-> ls[i].pos, t |-> ls[i].t, nom |-> ls[i].nom, g |-> ls[i].g,
                                      v |-> ls[i].v, ns |-> ls[i].ns, id |-> i]]
Groups(ls) == SetToSortSeq({ls[i].g : i \in DOMAIN ls} \ {0}, <)
Parts(ls, comp) ==
  CASE comp = "perline" -> [i \in DOMAIN ls |-> <<ls[i]>>]
    [] comp = "types" ->
         LET a == Filter(ls, LAMBDA l : l.t = "A")
             e == Filter(ls, LAMBDA l : l.t = "E")
         IN (IF a = <<>> THEN <<>> ELSE <<a>>) \o (IF e = <<>> THEN <<>> ELSE <<e>>)
    [] OTHER ->
         LET gs == Groups(ls)
             single == Filter(ls, LAMBDA l : l.g = 0)
         IN [k \in DOMAIN gs |-> Filter(ls, LAMBDA l : l.g = gs[k])]
            \o [k \in DOMAIN single |-> <<single[k]>>]
Nans(n) == [k \in 1..n |-> Nan]
Element(ls) == [t |-> ls[1].t, ls |-> ls, amp |-> Nans(Len(ls)), std |-> Nans(Len(ls)), g |-> 0, c |-> 0]
Elements(o) == LET ps == Parts(Numbered(o.lines), o.comp) IN [k \in DOMAIN ps |-> Element(ps[k])]

Flux0(q, i) == 32 * ((i * 7 + q.seed * 3) % 11)
Cont0(q, i) == 32 * 2 * ((i * 3 + q.seed) % 4)
Err(q, i) == 1 + ((i + q.seed) % 2)
Idx(q) == 0..(q.n - 1)
Raw(s) == [k \in DOMAIN s.sp |-> [i \in Idx(s.sp[k]) |-> Flux0(s.sp[k], i)]]
Con(s) == [k \in DOMAIN s.sp |-> [i \in Idx(s.sp[k]) |-> Cont0(s.sp[k], i)]]
Zero(s) == [k \in DOMAIN s.sp |-> [i \in Idx(s.sp[k]) |-> 0]]
Minus(f, g) == [k \in DOMAIN f |-> [i \in DOMAIN f[k] |-> f[k][i] - g[k][i]]]

\* ------------------------------------------------------------------ supports
Mu(s, l) == (l.pos * (2 + s.z)) \div 2
Half(s, l) == (l.ns * s.w) \div 2
Lo(s, k, l) == MaxI(Mu(s, l) - Half(s, l), s.sp[k].b)
Hi(s, k, l) == MinI(Mu(s, l) + Half(s, l), s.sp[k].e)
\* a line is outside when less than a third of its window is in the range
LineOut(s, k, l) ==
  \/ Lo(s, k, l) > Hi(s, k, l)
  \/ 100 * (s.sp[k].e - Lo(s, k, l)) <= 66 * Half(s, l)
  \/ 100 * (Hi(s, k, l) - s.sp[k].b) <= 66 * Half(s, l)
In(s, k, i) == {j \in DOMAIN s.el[i].ls : ~LineOut(s, k, s.el[i].ls[j])}
Own(s, k, i, j) ==
  LET l == s.el[i].ls[j] IN <<Lo(s, k, l) - s.sp[k].x0, Hi(s, k, l) - s.sp[k].x0>>
Span(a, b) == a[1]..b[2]
\* what every line of the element lying in the range covers, given once
Share(a, b) == MaxI(a[1], b[1]) <= MinI(a[2], b[2])
Hull(S) == <<Min({a[1] : a \in S}), Max({a[2] : a \in S})>>
RECURSIVE Merge(_)
Merge(S) ==
  LET P == {p \in S \X S : p[1] # p[2] /\ Share(p[1], p[2])} IN
  IF P = {} THEN S
  ELSE LET p == CHOOSE p \in P : TRUE IN Merge((S \ {p[1], p[2]}) \cup {Hull({p[1], p[2]})})
Supports(s, k, i) == Merge({Own(s, k, i, j) : j \in In(s, k, i)})
Members(s, k, i, a) == {j \in In(s, k, i) : Share(Own(s, k, i, j), a)}
\* the supports where a line takes part (all of them for line 0)
Where(s, k, i, l) == {a \in Supports(s, k, i) : l = 0 \/ l \in Members(s, k, i, a)}
Cover(S) == {n \in 0..99 : \E a \in S : n \in a[1]..a[2]}
Covered(s, k, i) == Cover(Supports(s, k, i))

\* ----------------------------------------------------------------- the model
Sum(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
Tent(s, l, x) == MaxI(0, 4 * s.w - AbsI(x - Mu(s, l)))        \* in 1/4w
Signed(s, i, c) == IF s.el[i].t = "A" THEN -c ELSE 1           \* c in units of flux
LineAt(s, k, i, j, x, c) ==
  LET a == s.el[i].amp[j] IN
  IF a = Nan \/ a < 0 THEN 0
  ELSE (Signed(s, i, c) * a * Tent(s, s.el[i].ls[j], x) * 2) \div s.w
LinesAt(s, k, i, J, x, c) == Sum(J, LAMBDA j : LineAt(s, k, i, j, x, c))
\* what the element adds to the flux of sample n on the supports S
Adds(s, k, i, S, n) ==
  Sum({a \in S : n \in a[1]..a[2]},
      LAMBDA a : LinesAt(s, k, i, Members(s, k, i, a), n + s.sp[k].x0, s.cont[k][n] \div 32))
OfType(s, t) == {i \in DOMAIN s.el : t = "all" \/ s.el[i].t = t}
\* one constant under each group of elements, the first group first
OffGroups(s, I) == {s.el[i].g : i \in I} \ {0}
OffAt(s, k, I, n) ==
  LET G == {g \in OffGroups(s, I) : \E i \in I : s.el[i].g = g /\ n \in Covered(s, k, i)} IN
  IF G = {} THEN 0 ELSE 32 * s.el[Min({i \in I : s.el[i].g = Min(G)})].c
Adding(s, k, I) == LET S == [i \in I |-> Supports(s, k, i)] IN
  [n \in Idx(s.sp[k]) |-> Sum({i \in I : n \in Cover(S[i])}, LAMBDA i : Adds(s, k, i, S[i], n))]
Full(s, t) ==
  [k \in DOMAIN s.sp |-> LET A == Adding(s, k, OfType(s, t)) IN
     [n \in Idx(s.sp[k]) |-> s.cont[k][n] + A[n] + (IF s.on THEN OffAt(s, k, DOMAIN s.el, n) ELSE 0)]]
Under(s, I, l) ==
  [k \in DOMAIN s.sp |-> LET S == [i \in I |-> Where(s, k, i, l)] IN
     [n \in Idx(s.sp[k]) |->
        IF \E i \in I : n \in Cover(S[i])
        THEN s.cont[k][n] + Sum({i \in I : n \in Cover(S[i])}, LAMBDA i : Adds(s, k, i, S[i], n))
        ELSE s.flux[k][n]]]

\* ------------------------------------------------------------------- fitting
AllOut(s, i) == \A k \in DOMAIN s.sp : In(s, k, i) = {}
OutEverywhere(s, i, j) == \A k \in DOMAIN s.sp : j \notin In(s, k, i)
\* the template of the element, in 1/4w
Shape(s, k, i, a, n) ==
  Sum(Members(s, k, i, a),
      LAMBDA j : Signed(s, i, s.cont[k][n] \div 32) * s.el[i].ls[j].nom * Tent(s, s.el[i].ls[j], n + s.sp[k].x0))
Four(s, k, n) == IF Err(s.sp[k], n) = 1 THEN 4 ELSE 1
OverSamples(s, i, l, F(_, _, _)) ==
  Sum(DOMAIN s.sp, LAMBDA k : Sum(Where(s, k, i, l), LAMBDA a : Sum(a[1]..a[2], LAMBDA n : F(k, a, n))))
Dtm(s, i, l) == \* in 1/32
  (OverSamples(s, i, l, LAMBDA k, a, n : (s.noc[k][n] \div 32) * Shape(s, k, i, a, n) * Four(s, k, n)) * 2) \div s.w
Mtm(s, i, l) == \* in 1/256
  (OverSamples(s, i, l, LAMBDA k, a, n : Shape(s, k, i, a, n) * Shape(s, k, i, a, n) * Four(s, k, n)) * 4)
    \div (s.w * s.w)
Fit(s, i, l) ==
  LET M == Mtm(s, i, l) IN
  IF AllOut(s, i) THEN [d |-> Nan, m |-> Nan, kept |-> TRUE]
  ELSE IF M = 0 THEN [d |-> Nan, m |-> Nan, kept |-> FALSE]
  ELSE [d |-> Dtm(s, i, l), m |-> M, kept |-> FALSE]
\* the amplitudes reported with a fit; f comes from Fit, g from the code
FitOK(s, i, f, g) ==
  /\ g.d = f.d /\ g.m = f.m
  /\ \A j \in DOMAIN s.el[i].ls :
       LET a == g.a[j]  nom == s.el[i].ls[j].nom IN
       IF f.kept THEN a = (IF s.el[i].amp[j] = Nan THEN Nan ELSE 16 * s.el[i].amp[j])
       ELSE IF f.m = Nan \/ OutEverywhere(s, i, j) THEN a = Nan /\ g.s[j] = Nan
       ELSE /\ g.s[j] = 64 * nom * nom
            /\ \/ s.el[i].t = "A" /\ a = 64 /\ 8 * nom * MaxI(0, f.d) >= f.m - 8
               \/ /\ a # Nan /\ a <= 20000 /\ a >= 0 /\ (s.el[i].t = "A" => a <= 64)
                  \* a = 64 * nom * (d/32) / (m/256)
                  /\ AbsI((a \div 4) * (f.m \div 16) - 8 * nom * MaxI(0, f.d)) <= 2 * (f.m \div 16) + (a \div 4) + 16

\* ------------------------------------------------------------------- queries
Sorted(S) == SetToSortSeq(S, <)
Valid(s, k) == {i \in DOMAIN s.el : In(s, k, i) # {}}
Strength(s, k, i) == \* the sign of the element's amplitude
  LET J == {j \in In(s, k, i) : s.el[i].ls[j].nom # 0} IN
  IF J = {} THEN 0
  ELSE LET a == s.el[i].amp[Min(J)] IN IF a # Nan /\ a > 0 THEN 1 ELSE 0
Lit(s, k, t) == {i \in OfType(s, t) \cap Valid(s, k) : Strength(s, k, i) = 1}
Overlap(s, k, i, X, thr) ==
  IF In(s, k, i) = {} THEN {i}
  ELSE {i} \cup {m \in Valid(s, k) \ X : s.el[m].t = s.el[i].t
         /\ \E p \in In(s, k, i), q \in In(s, k, m) :
              LET a == s.el[i].ls[p]  b == s.el[m].ls[q]
                  both == MinI(Mu(s, a) + Half(s, a), Mu(s, b) + Half(s, b))
                          - MaxI(Mu(s, a) - Half(s, a), Mu(s, b) - Half(s, b))
              IN 100 * both > thr * 2 * Half(s, a)}
\* lines of one velocity group are fitted together
Velocity(s, k, t) ==
  LET L == {p \in Valid(s, k) \X (1..12) : p[2] \in DOMAIN s.el[p[1]].ls /\ s.el[p[1]].ls[p[2]].t = t}
      of(p) == s.el[p[1]].ls[p[2]]
      tag(p) == IF of(p).v = 0 THEN of(p).id ELSE 100 + of(p).v
      T == Sorted({tag(p) : p \in L})
  IN [g \in DOMAIN T |-> Sorted({p[1] : p \in {q \in L : tag(q) = T[g]}})]
Elts(o) == Range1(o.elts)
Residual(s, k, I, cont, w) == \* in 1/4096 and quarters
  LET A == [i \in I |-> Covered(s, k, i)]
      S == {n \in Idx(s.sp[k]) : \E i \in I : n \in A[i]}
      d(n) == ((IF cont THEN s.spc[k][n] ELSE s.noc[k][n]) - s.flux[k][n])
      u(n) == IF w THEN Four(s, k, n) ELSE 4
  IN <<Sum(S, LAMBDA n : d(n) * d(n) * u(n)), Sum(S, LAMBDA n : u(n))>>
Rms(s, I, cont, w) == \* its square, as a fraction
  LET r(k) == Residual(s, k, I, cont, w) IN
  <<Sum(DOMAIN s.sp, LAMBDA k : r(k)[1]), Sum(DOMAIN s.sp, LAMBDA k : r(k)[2])>>
Window(s, k, i, j) ==
  LET m == Mu(s, s.el[i].ls[j]) IN
  <<MaxI(m - 3 * s.w, s.sp[k].b) - s.sp[k].x0, MinI(m + 3 * s.w, s.sp[k].e) - s.sp[k].x0>>
Integral(s, k, o) == \* in 1/64 and quarters
  LET W == Merge({Window(s, k, o.elts[x], o.ls[x]) : x \in DOMAIN o.elts})
      A == IF o.abs THEN Adding(s, k, OfType(s, "A")) ELSE [n \in Idx(s.sp[k]) |-> 0]
      under(n) == s.cont[k][n] + A[n] + (IF s.on THEN OffAt(s, k, Elts(o), n) ELSE 0)
      f(n) == s.spc[k][n] - under(n)
      e(n) == Err(s.sp[k], n) * Err(s.sp[k], n)
  IN <<Sum(W, LAMBDA a : Sum(a[1]..(a[2] - 1), LAMBDA n : f(n) + f(n + 1))),
       Sum(W, LAMBDA a : Sum(a[1]..(a[2] - 1), LAMBDA n : e(n) + e(n + 1)))>>
\* the observed flux without the lines of a type, drawn towards the model
\* without them where the lines are strong: <<numerator, denominator>>
Other(t) == IF t = "E" THEN "A" ELSE "E"
Without(s, k, t) ==
  LET off == IF t = "all" THEN s.cont ELSE Full(s, Other(t))
      lines == Full(s, t)
      I == Lit(s, k, t)
      S == UNION {Covered(s, k, i) : i \in I}
      wins == UNION {{Own(s, k, i, j) : j \in In(s, k, i)} : i \in I}
      near(n) == {a \in wins : n > a[1] /\ n < a[2]}
      mass(a, n) == (a[2] - a[1]) - AbsI((n - a[1]) - (a[2] - n))
      best(n) == CHOOSE a \in near(n) : \A b \in near(n) : mass(a, n) * (b[2] - b[1]) >= mass(b, n) * (a[2] - a[1])
      y(n) == s.spc[k][n] - lines[k][n] + s.cont[k][n]
  IN [n \in Idx(s.sp[k]) |->
        IF n \notin S \/ near(n) = {} THEN <<y(n), 1>>
        ELSE LET a == best(n)  full == a[2] - a[1]  m == mass(a, n) IN
             <<(10 * full - 9 * m) * y(n) + 9 * m * off[k][n], 10 * full>>]
Answer(s, o) ==
  CASE o.q = "support" -> Sorted(UNION {Covered(s, o.s, i) : i \in Elts(o)})
    [] o.q = "valid" -> Sorted(Lit(s, o.s, o.t))
    [] o.q = "overlap" -> Sorted(Overlap(s, o.s, o.i, Range1(o.excl), o.thr))
    [] o.q = "velocity" -> Velocity(s, o.s, o.t)
    [] o.q = "residual" -> IF o.elts = <<>> THEN <<Nan, Nan>> ELSE Residual(s, o.s, Elts(o), o.cont, o.w)
    [] o.q = "rms" -> IF o.elts = <<>> THEN <<0, 0>> ELSE Rms(s, Elts(o), o.cont, o.w)
    [] o.q = "integral" -> Integral(s, o.s, o)
    [] o.q = "removed" -> Without(s, o.s, o.t)
    [] OTHER -> LinesAt(s, o.s, o.i, In(s, o.s, o.i), o.x, 1)

\* --------------------------------------------------------------- transitions
Capped(e, x) == IF e.t = "A" THEN MinI(x, 4) ELSE x
Fitted(s, i, A, S) ==
  LET e == s.el[i]
      none(j) == A = Nan \/ OutEverywhere(s, i, j)
  IN [e EXCEPT !.amp = [j \in DOMAIN @ |-> IF none(j) THEN Nan ELSE Capped(e, A * e.ls[j].nom)],
               !.std = [j \in DOMAIN @ |-> IF none(j) THEN Nan ELSE S * e.ls[j].nom]]
Moved(s, z) ==
  [s EXCEPT !.z = z, !.el = [i \in DOMAIN @ |-> [@[i] EXCEPT !.amp = Nans(Len(@)), !.std = Nans(Len(@)), !.g = 0]]]
Power(x, p) == IF p = 1 THEN 1 ELSE IF p = 2 THEN x ELSE x * x
Templated(s, o) == \* o.alpha in halves
  [k \in DOMAIN s.sp |-> [n \in Idx(s.sp[k]) |->
     (2 - o.alpha) * 16 * ((1 + ((n + k - 1) % 3)) * o.A
                           + Sum(DOMAIN o.poly, LAMBDA p : o.poly[p] * Power(n + s.sp[k].x0, p)))
     + o.alpha * (Cont0(s.sp[k], n) \div 2)]]
Next1(s, o) ==
  CASE o.a = "model" ->
         LET t == [InitSt EXCEPT !.ok = TRUE, !.w = o.w, !.sp = o.spectra, !.el = Elements(o)]
         IN [t EXCEPT !.flux = Zero(t), !.cont = Zero(t), !.spc = Raw(t), !.noc = Raw(t)]
    [] o.a \in {"z", "fitall"} -> Moved(s, o.z)
    [] o.a = "amp" -> [s EXCEPT !.el[o.i] = Fitted(s, o.i, o.A, o.S)]
    [] o.a = "component" ->
         CASE o.c = "noContinuum" -> [s EXCEPT !.flux = Zero(s), !.cont = Zero(s), !.spc = Raw(s), !.noc = Raw(s)]
           [] o.c = "fromSpectrum" -> [s EXCEPT !.flux = Con(s), !.cont = Con(s), !.spc = Raw(s),
                                                !.noc = Minus(Raw(s), Con(s))]
           [] OTHER -> [s EXCEPT !.flux = Zero(s), !.cont = Zero(s), !.spc = Raw(s)]
    [] o.a = "template" -> LET c == Templated(s, o) IN [s EXCEPT !.cont = c, !.noc = Minus(s.spc, c)]
    [] o.a = "initcont" -> [s EXCEPT !.flux = s.cont, !.noc = Minus(s.spc, s.cont)]
    [] o.a = "tospectrum" -> [s EXCEPT !.cont = Con(s)]
    [] o.a = "offset" -> [s EXCEPT !.el[o.i].g = o.g, !.el[o.i].c = o.c]
    [] o.a = "offsets" -> [s EXCEPT !.on = o.on]
    [] o.a = "reinit" -> [s EXCEPT !.flux = s.cont]
    [] o.a = "refresh" -> [s EXCEPT !.flux = Full(s, o.t)]
    [] o.a = "under" -> [s EXCEPT !.flux = Under(s, Elts(o), o.l)]
    [] o.a = "query" /\ o.q = "removed" -> [s EXCEPT !.flux[o.s] = Full(s, o.t)[o.s]]
    [] OTHER -> s
Seq0(f) == [n \in 1..Cardinality(DOMAIN f) |-> f[n - 1]]
Obs(s) ==
  [sp |-> [k \in DOMAIN s.sp |->
     [flux |-> Seq0(s.flux[k]),
      elts |-> [i \in DOMAIN s.el |->
        [out |-> In(s, k, i) = {},
         lo |-> [j \in DOMAIN s.el[i].ls |-> j \notin In(s, k, i)],
         own |-> [j \in DOMAIN s.el[i].ls |-> IF j \in In(s, k, i) THEN Own(s, k, i, j) ELSE <<>>],
         sup |-> SetToSortSeq(Supports(s, k, i), LAMBDA a, b : a[1] < b[1])]]]],
   el |-> [i \in DOMAIN s.el |-> [out |-> AllOut(s, i), lo |-> [j \in DOMAIN s.el[i].ls |-> OutEverywhere(s, i, j)],
                                  amp |-> s.el[i].amp, std |-> s.el[i].std]]]
Result(s, t, o) ==
  CASE o.a = "query" -> [kind |-> o.q, v |-> Answer(s, o)]
    [] o.a = "fit" -> [kind |-> "fit", v |-> <<[i |-> o.i, f |-> Fit(s, o.i, o.l)]>>]
    [] o.a = "fitall" -> [kind |-> "fitall", v |-> [i \in DOMAIN t.el |-> [i |-> i, f |-> Fit(t, i, 0)]]]
    [] OTHER -> [kind |-> "none", v |-> <<>>]
Apply(s, o) ==
  LET t == [Next1(s, o) EXCEPT !.n = s.n + 1]
      st == IF o.a = "fitall" THEN t ELSE s
      q == IF o.a \in {"fit", "fitall"} THEN [sp |-> st.sp, z |-> st.z, w |-> st.w, el |-> st.el] ELSE [z |-> 0]
  IN R(t, [ret |-> "ok", res |-> Result(s, t, o), st |-> q, now |-> Obs(t)])

Ops(s) ==
  IF ~s.ok THEN Models
  ELSE IF s.n >= MaxOps THEN {}
  ELSE {[a |-> "z", z |-> z] : z \in Reds \ {s.z}}
       \cup {[a |-> "amp", i |-> i, A |-> A, S |-> 2] : i \in DOMAIN s.el, A \in Amps}
       \cup {[a |-> "fit", i |-> i, l |-> 0] : i \in DOMAIN s.el}
       \cup {[a |-> "component", c |-> c] : c \in {"noContinuum", "fromSpectrum"}}
       \cup {[a |-> "refresh", t |-> t] : t \in {"all", "E"}}
       \cup {[a |-> "under", elts |-> <<i>>, l |-> l] : i \in DOMAIN s.el, l \in {0, 1}}
       \cup {[a |-> "reinit"]}
SimOps(s) == Ops(s)

\* --------------------------------------------------------------- properties
Inv(s) ==
  /\ \A k \in DOMAIN s.sp, i \in DOMAIN s.el :
       LET S == Supports(s, k, i) IN
       /\ \A a, b \in S : a # b => ~Share(a, b)
       /\ Cover(S) = UNION {LET a == Own(s, k, i, j) IN a[1]..a[2] : j \in In(s, k, i)}
       /\ Cover(S) \subseteq (s.sp[k].b - s.sp[k].x0)..(s.sp[k].e - s.sp[k].x0)
  /\ \A i \in DOMAIN s.el : \A j \in DOMAIN s.el[i].ls :
       /\ OutEverywhere(s, i, j) => s.el[i].amp[j] = Nan
       /\ s.el[i].t = "A" => s.el[i].amp[j] <= 4
Everywhere(s) == DOMAIN s.el
StepOK(s, o, r) ==
  LET t == r.st IN
  CASE o.a = "refresh" ->
         /\ Full(t, o.t) = t.flux
         \* away from the lines the model is the continuum
         /\ \A k \in DOMAIN s.sp : \A n \in Idx(s.sp[k]) :
              (\A i \in DOMAIN s.el : n \notin Covered(s, k, i)) => t.flux[k][n] = s.cont[k][n]
         /\ ~s.on /\ o.t = "all" => Under([t EXCEPT !.flux = s.cont], Everywhere(s), 0) = t.flux
    [] o.a = "under" -> Under(t, Elts(o), o.l) = t.flux
    [] o.a = "fit" -> t.flux = s.flux /\ t.el = s.el
    [] o.a = "z" -> t.flux = s.flux
    [] OTHER -> TRUE
ResultOK(a, b) ==
  LET v == a.res.v  w == b.res IN
  CASE a.res.kind = "none" -> TRUE
    [] a.res.kind = "fit" -> FitOK(a.st, v[1].i, v[1].f, w)
    [] a.res.kind = "fitall" -> Len(w) = Len(v) /\ \A i \in DOMAIN v : FitOK(a.st, i, v[i].f, w[i])
    [] a.res.kind = "rms" -> IF v[2] = 0 THEN w = Nan
                             ELSE w # Nan /\ w <= 2000000 /\ AbsI(w * v[2] - v[1] \div 64) <= v[2] + 2
    [] a.res.kind = "removed" ->
         Len(w) = Cardinality(DOMAIN v)
         /\ \A n \in DOMAIN v : AbsI(w[n + 1]) < 2000000
              /\ AbsI(w[n + 1] * v[n][2] - 100 * v[n][1]) <= 2 * v[n][2]
    [] OTHER -> w = v
Match(a, b) ==
  /\ "ret" \in DOMAIN b
  /\ a.ret = b.ret
  /\ a.now.sp = b.sp /\ a.now.el = b.el
  /\ ResultOK(a, b)
=============================================================================
