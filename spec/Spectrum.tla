------------------------------ MODULE Spectrum ------------------------------
(* Spectra (CSpectrum): one raw flux, the continuum estimated from it with   *)
(* the current settings, and what remains; the flux shown is the selected    *)
(* component.  Spectra copied, moved, assigned, cut, masked or rebinned are  *)
(* whole and independent.  Fluxes are integers.                              *)
EXTENDS Base
CONSTANTS Slots, Waves, Fluxes, Wins

ANY == -999
\* cont: the continuum given by hand ("manual"), <<>> when there is none
\* e: noise of the raw flux, <<>> when not specified
\* old: estimates may be those made before samples were masked out
New == [w |-> <<>>, f |-> <<>>, e |-> <<>>, type |-> "raw", method |-> "", win |-> -1, refl |-> TRUE,
        cont |-> <<>>, lsf |-> 0, phot |-> 0, name |-> "", obs |-> "", old |-> FALSE, interp |-> "lin"]
InitSt == [s \in Slots |-> New]

Sorted(w) == \A i \in 1..(Len(w) - 1) : w[i] < w[i + 1]
\* can the continuum be estimated?
Can(x) == CASE x.method \in {"zero", "raw"} -> "yes"
            [] x.method = "manual" -> IF x.cont # <<>> THEN "yes" ELSE "no"
            [] x.method = "irregularSamplingMedian" -> IF x.old THEN "maybe" ELSE IF x.win > 0 THEN "yes" ELSE "no"
            [] OTHER -> "no"
Known(x) == x.method \in {"zero", "raw", "manual"}
Cont(x) == CASE x.method = "zero" -> [i \in DOMAIN x.f |-> 0]
             [] x.method = "raw" -> x.f
             [] x.method = "manual" -> x.cont
Rest(x) == LET c == Cont(x) IN [i \in DOMAIN x.f |-> x.f[i] - c[i]]
\* the selected flux can be shown, and is
Shows(x) == IF x.type = "raw" THEN "yes" ELSE Can(x)
Shown(x) == CASE x.type = "raw" -> x.f
              [] x.type = "continuum" -> Cont(x)
              [] x.type = "nocontinuum" -> Rest(x)
Exact(x) == x.type = "raw" \/ Known(x)

Reset(x) == [x EXCEPT !.cont = <<>>, !.old = FALSE]
View(x) == [w |-> x.w, f |-> x.f, e |-> x.e, type |-> x.type, method |-> x.method, win |-> x.win,
            refl |-> x.refl, lsf |-> x.lsf, phot |-> x.phot, name |-> x.name, obs |-> x.obs]
Ok(s, o, x) == R([s EXCEPT ![o.s] = x], [ret |-> "ok", v |-> View(x)])
No(s, o, c) == R(s, [ret |-> c, v |-> View(s[o.s])])
\* refused when the shown flux is needed and cannot be had
Needs(s, o, x, r) == IF Shows(x) = "no" THEN No(s, o, "INTERNAL_ERROR") ELSE r

Pick(v, m) == FoldSeq(LAMBDA j, acc : IF m[j] = 1 THEN Append(acc, v[j]) ELSE acc, <<>>, [j \in DOMAIN m |-> j])
Neg(v) == [i \in DOMAIN v |-> -v[i]]
Mul(v, k) == [i \in DOMAIN v |-> v[i] * k]
Smooth(v) == LET N == Len(v) IN
  [i \in DOMAIN v |-> LET a == MaxI(1, i - 1)
                          b == MinI(N, i + 1)
                      IN FoldSeq(+, 0, SubSeq(v, a, b)) \div (b - a + 1)]
Smoothable(v) == LET N == Len(v) IN
  \A i \in DOMAIN v : LET a == MaxI(1, i - 1)
                          b == MinI(N, i + 1)
                      IN FoldSeq(+, 0, SubSeq(v, a, b)) % (b - a + 1) = 0
Median(x, y) == IF x.method = "irregularSamplingMedian" THEN Reset(y) ELSE y

Apply(s, o) ==
  LET x == s[o.s]
      y == IF HasKey(o, "t") THEN s[o.t] ELSE x IN
  CASE o.a = "new" ->
         IF Len(o.w) # Len(o.f) \/ o.w = <<>> \/ ~Sorted(o.w) THEN No(s, o, "INVALID_SPECTRUM")
         ELSE Ok(s, o, [New EXCEPT !.w = o.w, !.f = o.f, !.e = o.e, !.lsf = o.lsf])
    [] o.a = "copy" ->
         \* copy construction checks the shown flux
         IF o.how = "assign" THEN Ok(s, o, y)
         ELSE IF y.f = <<>> THEN No(s, o, IF Shows(y) = "no" THEN "any" ELSE "INVALID_SPECTRUM")
         ELSE Needs(s, o, y, Ok(s, o, y))
    [] o.a = "move" -> LET r == Ok(s, o, y) IN R([r.st EXCEPT ![o.t] = New], r.obs)
    [] o.a = "type" -> Ok(s, o, [x EXCEPT !.type = o.x])
    [] o.a = "flux" ->
         IF Len(o.f) # Len(x.w) THEN No(s, o, "INVALID_SPECTRUM")
         ELSE Ok(s, o, [Reset(x) EXCEPT !.f = o.f, !.e = o.e, !.type = "raw"])
    [] o.a = "wave" ->
         Needs(s, o, x, IF Len(o.w) # Len(x.f) THEN No(s, o, "INVALID_SPECTRUM") ELSE
           \* estimates already made with another grid are only kept by the irregular method
           Ok(s, o, [x EXCEPT !.w = o.w, !.old = @ \/ x.method = "irregularSamplingMedian"]))
    [] o.a = "both" ->
         IF Len(o.w) # Len(o.f) \/ o.w = <<>> THEN No(s, o, "INVALID_SPECTRUM")
         ELSE Ok(s, o, [Reset(x) EXCEPT !.w = o.w, !.f = o.f, !.e = o.e, !.type = "raw"])
    [] o.a = "err" ->
         IF Len(o.e) # Len(x.w) THEN No(s, o, "INTERNAL_ERROR")
         ELSE Ok(s, o, [x EXCEPT !.e = IF x.type = "raw" THEN o.e ELSE @])
    [] o.a = "method" -> Ok(s, o, IF x.method = o.x THEN x ELSE [Reset(x) EXCEPT !.method = o.x])
    [] o.a = "manual" ->
         IF Len(o.c) # Len(x.w) THEN No(s, o, "INTERNAL_ERROR")
         ELSE Ok(s, o, [Reset(x) EXCEPT !.method = "manual", !.cont = o.c])
    [] o.a = "win" -> Ok(s, o, [Median(x, x) EXCEPT !.win = o.k])
    [] o.a = "refl" -> Ok(s, o, [Median(x, x) EXCEPT !.refl = o.b])
    [] o.a = "name" -> Ok(s, o, [x EXCEPT !.name = o.x])
    [] o.a = "obs" -> Ok(s, o, [x EXCEPT !.obs = o.x])
    [] o.a = "lsf" -> Ok(s, o, [x EXCEPT !.lsf = o.n])
    [] o.a = "phot" -> Ok(s, o, [x EXCEPT !.phot = o.n])
    [] o.a = "invert" -> Ok(s, o, [x EXCEPT !.f = Neg(x.f), !.cont = Neg(x.cont), !.old = FALSE \/ x.old])
    [] o.a = "scale" -> Ok(s, o, [x EXCEPT !.f = Mul(x.f, o.k), !.cont = Mul(x.cont, o.k)])
    [] o.a = "init" ->
         Needs(s, o, x, Ok(s, o, [Reset(x) EXCEPT !.f = IF o.smooth = 1 THEN Smooth(@) ELSE @, !.type = "raw",
                                  !.method = o.m, !.win = o.win, !.refl = o.refl]))
    [] o.a = "extract" ->
         Ok(s, o, [New EXCEPT !.w = SubSeq(y.w, o.i, o.j), !.f = SubSeq(y.f, o.i, o.j),
                   !.e = IF y.e = <<>> THEN <<>> ELSE SubSeq(y.e, o.i, o.j),
                   !.name = y.name, !.lsf = y.lsf, !.method = y.method, !.win = y.win, !.refl = y.refl,
                   !.obs = "any", !.phot = ANY, !.interp = "any"])
    [] o.a = "mask" ->
         IF Len(o.m) # Len(y.w) THEN No(s, o, "INTERNAL_ERROR")
         ELSE Ok(s, o, [y EXCEPT !.w = Pick(@, o.m), !.f = Pick(@, o.m),
                        !.e = IF @ = <<>> THEN <<>> ELSE Pick(@, o.m),
                        !.cont = IF @ = <<>> THEN <<>> ELSE Pick(@, o.m),
                        !.old = @ \/ y.method = "irregularSamplingMedian"])
    [] o.a = "interp" -> IF o.x \notin {"lin", "ngp", "spline", "preComputedFineGrid"} THEN No(s, o, "INVALID_PARAMETER")
                         ELSE Ok(s, o, [x EXCEPT !.interp = o.x])
    [] o.a = "rebin" ->
         \* onto its own samples i..j: the shown flux, whatever the interpolation
         IF Shows(y) = "no" THEN No(s, o, "INTERNAL_ERROR")
         ELSE LET p == [k \in DOMAIN y.w |-> IF k >= o.i /\ k <= o.j THEN 1 ELSE 0]
                  f == IF Exact(y) THEN Pick(Shown(y), p) ELSE <<>>
                  r == [Reset(x) EXCEPT !.w = Pick(y.w, p), !.f = f, !.type = "raw",
                        !.e = IF o.err = "rebin" /\ y.type = "raw" THEN Pick(y.e, p) ELSE <<>>]
              IN R([s EXCEPT ![o.s] = r], [ret |-> "ok", v |-> View(r), mask |-> [k \in 1..Len(r.w) |-> 1],
                                            same |-> TRUE])
    [] o.a = "ask" ->
         LET c == Can(x) IN
         R(s, [ret |-> IF c = "yes" THEN "ok" ELSE IF c = "no" THEN "INTERNAL_ERROR" ELSE "any", v |-> View(x)]
              @@ (IF c = "no" THEN EmptyFn
                  ELSE [sum |-> TRUE, shown |-> TRUE] @@
                       (IF Known(x) THEN [cont |-> Cont(x), rest |-> Rest(x)] ELSE EmptyFn) @@
                       (IF x.old THEN EmptyFn ELSE [fresh |-> TRUE])))
    [] o.a = "shown" ->
         R(s, [ret |-> IF Shows(x) = "yes" THEN "ok" ELSE IF Shows(x) = "no" THEN "INTERNAL_ERROR" ELSE "any", v |-> View(x)]
              @@ (IF Shows(x) = "yes" /\ Exact(x) THEN [flux |-> Shown(x)] ELSE EmptyFn))

Loose(a, b) == a = b \/ (a = "any") \/ b = "any"
VMatch(e, b) == /\ \A k \in {"w", "f", "type", "method", "win", "refl", "lsf", "name"} : e[k] = b[k]
                /\ e.e = <<>> \/ e.e = b.e
                /\ e.obs \in {"any", b.obs}
                /\ e.phot \in {ANY, b.phot}
\* the flux of a spectrum rebinned from an estimated component is not predicted
VNoFlux(e, b) == e.f = <<>> /\ e.w # <<>> /\ VMatch([e EXCEPT !.f = b.f], b)
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ IF e.ret = "any" THEN b.ret # "std" ELSE e.ret = b.ret
  /\ VMatch(e.v, b.v) \/ VNoFlux(e.v, b.v)
  /\ b.ret = "ok" => \A k \in DOMAIN e \ {"ret", "v"} : k \in DOMAIN b /\ e[k] = b[k]

Inv(s) == \A t \in Slots : s[t].cont # <<>> => Len(s[t].cont) = Len(s[t].f) \/ s[t].f = <<>>
StepOK(s, o, r) ==
  /\ \A t \in Slots \ ({o.s} \cup (IF o.a = "move" THEN {o.t} ELSE {})) : r.st[t] = s[t]
  /\ o.a \in {"ask", "shown"} => r.st = s
  \* raw is always the sum of its components
  /\ LET x == r.st[o.s] IN
     (Known(x) /\ Can(x) = "yes" /\ x.f # <<>> /\ Len(x.f) = Len(x.w)) =>
       \A i \in DOMAIN x.f : x.f[i] = Cont(x)[i] + Rest(x)[i]

Methods == {"zero", "raw", "irregularSamplingMedian", "other"}
Types == {"raw", "continuum", "nocontinuum"}
Noise(n, k) == [i \in 1..n |-> i + k]
Full(x) == x.w # <<>> /\ x.f # <<>> /\ Len(x.w) = Len(x.f)
Ms(n) == IF n > 5 THEN {[i \in 1..n |-> IF i % 3 = 1 THEN 0 ELSE 1]}
         ELSE {m \in [1..n -> {0, 1}] : m[1] = 1 /\ \E i \in 2..n : m[i] = 1}
AttrOps(s, t) ==
  {[a |-> "type", s |-> t, x |-> x] : x \in Types}
  \cup {[a |-> "method", s |-> t, x |-> x] : x \in Methods}
  \cup {[a |-> "win", s |-> t, k |-> x] : x \in Wins}
  \cup {[a |-> "refl", s |-> t, b |-> x] : x \in BOOLEAN}
  \cup {[a |-> k, s |-> t, x |-> "n" ] : k \in {"name", "obs"}}
  \cup {[a |-> k, s |-> t, n |-> x ] : k \in {"lsf", "phot"}, x \in 0..2}
Ops(s) == UNION {
  LET x == s[t] IN
  {[a |-> "new", s |-> t, w |-> w, f |-> f, e |-> Noise(Len(f), k), lsf |-> k] : w \in Waves, f \in Fluxes, k \in {0, 1}}
  \cup AttrOps(s, t)
  \cup (IF ~Full(x) THEN {} ELSE
    {[a |-> "flux", s |-> t, f |-> f, e |-> Noise(Len(f), 2)] : f \in Fluxes}
    \cup {[a |-> "wave", s |-> t, w |-> w] : w \in {v \in Waves : Sorted(v)}}
    \cup {[a |-> "both", s |-> t, w |-> w, f |-> f, e |-> Noise(Len(f), 3)] : w \in {v \in Waves : Sorted(v)}, f \in Fluxes}
    \cup {[a |-> "err", s |-> t, e |-> Noise(n, 4)] : n \in IF x.type = "raw" THEN {Len(x.w), 2} ELSE {}}
    \cup {[a |-> "manual", s |-> t, c |-> c] : c \in {[i \in 1..n |-> 3 * i - 2] : n \in {Len(x.w), 2}}}
    \cup {[a |-> "invert", s |-> t], [a |-> "ask", s |-> t], [a |-> "shown", s |-> t]}
    \cup {[a |-> "scale", s |-> t, k |-> 2] : k \in IF \A i \in DOMAIN x.f : AbsI(x.f[i]) < 500 THEN {2} ELSE {}}
    \cup {[a |-> "init", s |-> t, smooth |-> k, m |-> m, win |-> w, refl |-> r] :
          k \in {0} \cup (IF Smoothable(x.f) THEN {1} ELSE {}), m \in Methods, w \in Wins, r \in {TRUE}}
    \cup {[a |-> "interp", s |-> t, x |-> i] : i \in {"lin", "ngp", "spline", "preComputedFineGrid", "bad"}})
  \cup UNION {LET y == s[u] IN
      {[a |-> "copy", s |-> t, t |-> u, how |-> "assign"]}
      \cup (IF y.w = <<>> \/ Full(y) THEN {[a |-> "copy", s |-> t, t |-> u, how |-> "ctor"]} ELSE {})
      \cup (IF Full(y) /\ Can(y) = "yes" THEN {[a |-> "move", s |-> t, t |-> u, how |-> h] : h \in {"assign", "ctor"}} ELSE {})
      \cup (IF ~Full(y) THEN {} ELSE
           {[a |-> "extract", s |-> t, t |-> u, i |-> p[1], j |-> p[2]] : p \in
              {q \in {<<1, 1>>, <<1, 2>>, <<2, Len(y.w)>>, <<1, Len(y.w)>>} : q[1] <= q[2] /\ q[2] <= Len(y.w)}}
           \cup {[a |-> "mask", s |-> t, t |-> u, m |-> m] : m \in Ms(Len(y.w))}
           \cup (IF Len(y.w) < 3 \/ y.interp = "any" \/ Shows(y) = "maybe" THEN {} ELSE
             {[a |-> "rebin", s |-> t, t |-> u, i |-> p[1], j |-> p[2], err |-> e] : p \in {<<1, Len(y.w)>>, <<2, Len(y.w)>>},
               e \in {"no"} \cup IF y.interp = "lin" /\ y.e # <<>> THEN {"rebin"} ELSE {}}))
      : u \in Slots \ {t}}
  : t \in Slots}
SimOps(s) == Ops(s)
=============================================================================
