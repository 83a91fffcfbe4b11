-------------------------------- MODULE Masks --------------------------------
(* Sample masks: a mask of size n is a subset of the positions 1..n.  Two   *)
(* masks m[1], m[2]; every operation is an operation on these sets, masks of *)
(* different sizes are never combined, and an operation changes only the    *)
(* mask it is called on.  Wavelength ranges select the positions whose      *)
(* wavelength is in the closed range; the statistics of a spectrum in a     *)
(* range are those of the selected samples, weighted by inverse variance.   *)
EXTENDS Base
CONSTANTS Size, Axes, Bounds, Flux, Acts

InitSt == [m |-> <<<<>>, <<>>>>]

SetOf(v) == {i \in DOMAIN v : v[i] = 1}
MaskOf(S, n) == [i \in 1..n |-> IF i \in S THEN 1 ELSE 0]
Sel(w, b, e) == {i \in DOMAIN w : w[i] >= b /\ w[i] <= e}
\* share of S in T, in units of 1 / 720720 (divisible by 1..16)
Share(S, T) == IF T = {} THEN 0 ELSE Cardinality(S) * (720720 \div Cardinality(T))
Keep(S, v) == SelectSeq([i \in DOMAIN v |-> IF i \in S THEN <<v[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
Flat(v) == [i \in DOMAIN v |-> v[i][1]]

Total(f, S) == FoldSet(LAMBDA i, a : a + f[i], 0, S)
\* inverse variances in units of 1/4: the noise is 1 or 2
Wgt(e) == [i \in DOMAIN e |-> IF e[i] = 1 THEN 4 ELSE 1]
Rnd(a, b) == (2 * a + b) \div (2 * b)     \* a / b rounded, b > 0
Stats(f, e, S) ==
  LET w == Wgt(e)
      W == Total(w, S)
      F1 == Total([i \in DOMAIN f |-> f[i] * w[i]], S)
      F2 == Total([i \in DOMAIN f |-> f[i] * f[i] * w[i]], S)
      W2 == Total([i \in DOMAIN w |-> w[i] * w[i]], S)
  IN IF S = {} THEN [mean |-> -9, var |-> -9]          \* not a number
     ELSE [mean |-> Rnd(1000 * F1, W),
           var |-> IF Cardinality(S) = 1 THEN -9 ELSE Rnd(1000 * (F2 * W - F1 * F1), W * W - W2)]

Ob(s, x) == [ret |-> "ok", m |-> s.m, x |-> x]
Er(s, e) == [ret |-> e, m |-> s.m]
To(s, k, v) == [m |-> [s.m EXCEPT ![k] = v]]
Ch(s, k, v, x) == LET t == To(s, k, v) IN R(t, Ob(t, x))
B2I(x) == IF x THEN 1 ELSE 0

Apply(s, o) ==
  LET a == IF HasKey(o, "k") THEN s.m[o.k] ELSE <<>>     \* the mask of the call
      b == IF HasKey(o, "j") THEN s.m[o.j] ELSE <<>>     \* its argument
      same == Len(a) = Len(b)
      both == MaskOf(SetOf(a) \cap SetOf(b), Len(a))
  IN
  CASE o.a = "new" -> Ch(s, o.k, o.v, 0)
    [] o.a = "make" -> Ch(s, o.k, [i \in 1..o.n |-> o.d], 0)
    [] o.a = "copy" -> Ch(s, o.k, b, 0)
    [] o.a = "set" -> IF o.i \in DOMAIN a THEN Ch(s, o.k, [a EXCEPT ![o.i] = o.d], 0) ELSE R(s, Ob(s, 0))
    [] o.a = "size" -> Ch(s, o.k, [i \in 1..o.n |-> IF i \in DOMAIN a THEN a[i] ELSE 0], 0)
    [] o.a = "and" -> Ch(s, o.k, IF same THEN both ELSE a, 0)
    [] o.a = "meet" -> Ch(s, o.k, IF same THEN both ELSE a, B2I(same))
    [] o.a = "over" -> R(s, Ob(s, IF ~same THEN -720720 ELSE Share(SetOf(b), SetOf(a))))
    [] o.a = "ifrac" -> R(s, Ob(s, IF ~same THEN -720720 ELSE Share(SetOf(a) \cap SetOf(b), SetOf(a))))
    [] o.a = "count" -> R(s, Ob(s, <<Len(a), Cardinality(SetOf(a)), Len(a) - Cardinality(SetOf(a))>>))
    \* the positions of a spectral axis in a range
    [] o.a = "range" -> Ch(s, o.k, MaskOf(Sel(o.w, o.b, o.e), Len(o.w)), 0)
    [] o.a = "axfrac" -> R(s, Ob(s, Share(Sel(o.w, o.b, o.e) \cap SetOf(a), Sel(o.w, o.b, o.e))))
    \* the elements of a vector, of an axis, of a spectral axis at the mask's positions
    [] o.a = "pick" -> IF Len(a) # Len(o.v) THEN R(s, Er(s, "INTERNAL_ERROR"))
                       ELSE R(s, Ob(s, Flat(Keep(SetOf(a), o.v))))
    [] o.a = "stats" -> IF o.b < o.w[1] \/ o.e > Last1(o.w) THEN R(s, Ob(s, 0))
                        ELSE R(s, Ob(s, 1) @@ [st |-> Stats(o.f, o.err, Sel(o.w, o.b, o.e))])
    [] o.a = "mstats" -> IF Len(a) # Len(o.f) THEN R(s, Er(s, "INTERNAL_ERROR"))
                         ELSE R(s, Ob(s, B2I(SetOf(a) # {})) @@ [st |-> Stats(o.f, o.err, SetOf(a))])

Vals(n) == UNION {[1..i -> {0, 1}] : i \in 0..n}
K == {1, 2}
Pairs2 == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Ops(s) ==
  (IF "sets" \in Acts THEN
     {[a |-> "new", k |-> k, v |-> v] : k \in K, v \in Vals(Size)}
     \cup {[a |-> "make", k |-> 1, n |-> n, d |-> d] : n \in 0..Size, d \in {0, 1}}
     \cup {[a |-> "set", k |-> 1, i |-> i, d |-> d] : i \in DOMAIN s.m[1], d \in {0, 1}}
     \cup {[a |-> "size", k |-> 1, n |-> n] : n \in 0..Size}
     \cup {[a |-> "count", k |-> 1]}
     \cup {[a |-> x, k |-> p[1], j |-> p[2]] : x \in {"and", "meet", "over", "ifrac", "copy"}, p \in Pairs2}
     \cup {[a |-> "pick", k |-> 1, v |-> [i \in 1..n |-> 10 * i]] : n \in 0..Size} ELSE {})
  \cup (IF "axes" \in Acts THEN
     {[a |-> "new", k |-> 1, v |-> v] : v \in Vals(Size)}
     \cup {[a |-> "range", k |-> 1, w |-> w, b |-> b[1], e |-> b[2]] : w \in Axes, b \in Bounds}
     \cup {[a |-> "axfrac", k |-> 1, w |-> w, b |-> b[1], e |-> b[2]] : w \in {x \in Axes : Len(x) = Len(s.m[1])}, b \in Bounds} ELSE {})
  \cup (IF "stats" \in Acts THEN
     UNION {{[a |-> "stats", w |-> w, f |-> f, err |-> e, b |-> b[1], e |-> b[2]] :
              f \in [1..Len(w) -> Flux], e \in [1..Len(w) -> {1, 2}], b \in Bounds} : w \in Axes}
     \cup {[a |-> "new", k |-> 1, v |-> v] : v \in Vals(Size)}
     \cup {[a |-> "mstats", k |-> 1, f |-> f, err |-> [i \in 1..Len(f) |-> 1 + (i % 2)]] :
            f \in UNION {[1..n -> Flux] : n \in 1..Size}} ELSE {})
SimOps(s) == Ops(s)

Inv(s) == \A k \in K : \A i \in DOMAIN s.m[k] : s.m[k][i] \in {0, 1}
\* only the mask of the call changes; intersections only shrink it, and
\* repeating one changes nothing
StepOK(s, o, r) ==
  /\ \A k \in K : r.st.m[k] # s.m[k] => (HasKey(o, "k") /\ o.k = k)
  /\ (o.a \in {"and", "meet"} => /\ SetOf(r.st.m[o.k]) \subseteq SetOf(s.m[o.k])
                                 /\ Apply(r.st, o).st = r.st)
  /\ (o.a = "ifrac" => r.obs.x <= 720720)

\* means and variances are rounded to 1/1000
Near(x, y) == x = y \/ (x >= 0 /\ y >= 0 /\ AbsI(x - y) <= 1)
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ IF HasKey(e, "st") /\ HasKey(b, "st")
     THEN /\ e.ret = b.ret /\ e.m = b.m /\ e.x = b.x
          /\ Near(e.st.mean, b.st.mean) /\ Near(e.st.var, b.st.var)
     ELSE e = b
=============================================================================
