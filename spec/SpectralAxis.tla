---------------------------- MODULE SpectralAxis ----------------------------
(* Wavelength grids (CSpectrumSpectralAxis): the facts a grid answers        *)
(* (sorted? log sampled, with which step? range, indices, masks) are those   *)
(* of the samples it holds now, whatever was done to it and whatever was     *)
(* asked before.  Wavelengths are integers, queried positions halves.        *)
EXTENDS Base
CONSTANTS Slots, Grids, MaxVal

\* 10^6 ln(n), n in 1..MaxVal
CONSTANT LnTable
Ln(x) == LnTable[AbsI(x)]

\* what was asked since the samples last changed matters only to name one finding:
\* a part taken out of a grid already known to be unsorted answers "unsorted" (sus).
\* anc: the larger grids this one was cut out of, whose step it may still report
Axis(v) == [v |-> v, asked |-> {}, sus |-> FALSE, anc |-> {}]
NoAxis == Axis(<<>>)
InitSt == [s \in Slots |-> NoAxis]

Sorted(v) == \A i \in 1..(Len(v) - 1) : v[i] < v[i + 1]
Deltas(v) == [i \in 1..(Len(v) - 1) |-> Ln(v[i + 1]) - Ln(v[i])]
Zero(v) == \E i \in DOMAIN v : v[i] = 0
\* 1 yes, 0 no, 2 too close to call with rounded logarithms
LogOf(v) ==
  IF Len(v) < 2 THEN 0
  ELSE IF v[1] = 0 \/ v[2] = 0 THEN 2
  ELSE IF Zero(v) THEN 0
  ELSE LET d == Deltas(v)
           gap(i) == 10 * AbsI(d[i] - d[1]) - AbsI(d[1])
       IN IF \E i \in DOMAIN d : gap(i) > 40 THEN 0
          ELSE IF \A i \in DOMAIN d : gap(i) < -40 \/ (v[1] = v[2] /\ d[i] = 0) THEN 1
          ELSE 2
StepOf(v) == (Ln(v[Len(v)]) - Ln(v[1])) \div (Len(v) - 1)
Steps(x) == {StepOf(v) : v \in {x.v} \cup x.anc}

\* positions in halves
Idx(v, w) ==
  IF w <= 2 * v[1] THEN 1
  ELSE IF w >= 2 * v[Len(v)] THEN Len(v)
  ELSE Min({i \in DOMAIN v : 2 * v[i] >= w})
ResAt(v, w) ==
  IF Len(v) < 2 THEN 0
  ELSE LET i == IF w < 0 THEN 2 ELSE MaxI(Idx(v, w), 2) IN v[i] - v[i - 1]
InR(v, i, lo, hi) == 2 * v[i] >= lo /\ 2 * v[i] <= hi
MaskOf(v, lo, hi) == [i \in DOMAIN v |-> IF InR(v, i, lo, hi) THEN 1 ELSE 0]
Overlap(v, lo, hi, m) ==
  LET I == {i \in DOMAIN v : InR(v, i, lo, hi)} IN
  <<Cardinality({i \in I : m[i] = 1}), Cardinality(I)>>
Clamp(v, lo, hi) ==
  IF Len(v) < 2 \/ v[Len(v)] = v[1] THEN <<"INVALID_SPECTRUM_WAVELENGTH">>
  ELSE LET b == MaxI(lo, 2 * v[1])
           e == MinI(hi, 2 * v[Len(v)])
       IN IF b >= e THEN <<"INVALID_WAVELENGTH_RANGE">> ELSE <<b, e>>
SubMask(v, r, b, e) ==   \* 0-based bounds, from the end backwards
  [i \in DOMAIN v |-> IF r = 1 \/ (i - 1 <= e /\ i - 1 >= b /\ (e - (i - 1)) % r = 0) THEN 1 ELSE 0]

Pick(v, m) == SelectSeq([i \in DOMAIN v |-> <<v[i], m[i]>>], LAMBDA p : p[2] = 1)
Masked(v, m) == [i \in DOMAIN Pick(v, m) |-> Pick(v, m)[i][1]]
Resize(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
MapV(v, f(_)) == [i \in DOMAIN v |-> f(v[i])]

Change(s, o, v) == LET t == [s EXCEPT ![o.s] = Axis(v)] IN R(t, [ret |-> "ok", v |-> v])
Keep(s, o, x) == R([s EXCEPT ![o.s] = x], [ret |-> "ok", v |-> x.v])
Scaled(x, f(_)) == [v |-> MapV(x.v, f), asked |-> x.asked, sus |-> x.sus,
                    anc |-> {MapV(w, f) : w \in x.anc}]
Refuse(s, o, c) == R(s, [ret |-> c, v |-> s[o.s].v])

Part(x, v) ==
  \* a part of x
  LET fromlog == "log" \in x.asked /\ LogOf(x.v) # 0 IN
  [v |-> v, asked |-> {},
   sus |-> x.sus \/ ("sorted" \in x.asked /\ ~Sorted(x.v)),
   anc |-> IF Zero(v) \/ Len(v) < 2 THEN {} ELSE {w \in {x.v} \cup x.anc : fromlog /\ ~Zero(w) /\ Len(w) > 1}]

Apply(s, o) ==
  LET x == IF HasKey(o, "t") THEN s[o.t] ELSE s[o.s] IN
  CASE o.a = "new" -> Change(s, o, o.v)
    [] o.a = "copy" -> Keep(s, o, x)
    [] o.a = "clear" -> Change(s, o, <<>>)
    [] o.a \in {"poke", "vec"} -> Change(s, o, [x.v EXCEPT ![o.i + 1] = o.x])
    [] o.a = "mul" -> Keep(s, o, Scaled(x, LAMBDA y : y * o.k))
    [] o.a = "div" -> Keep(s, o, Scaled(x, LAMBDA y : y \div o.k))
    [] o.a = "shift" ->
         IF o.k < 0 THEN Refuse(s, o, "INTERNAL_ERROR")
         ELSE IF o.k = 0 THEN Keep(s, o, x)
         ELSE IF o.fwd THEN Keep(s, o, Scaled(x, LAMBDA y : y * o.k))
         ELSE Keep(s, o, Scaled(x, LAMBDA y : y \div o.k))
    [] o.a = "offset" -> IF o.k = 0 THEN Keep(s, o, x) ELSE
                         Keep(s, o, [Axis(MapV(x.v, LAMBDA y : y + o.k)) EXCEPT !.sus = x.sus, !.asked = x.asked \ {"log"}])
    [] o.a = "extract" -> Keep(s, o, Part(x, SubSeq(x.v, o.i + 1, o.j + 1)))
    [] o.a = "mask" -> IF Len(o.m) # Len(x.v) THEN R(s, [ret |-> "INTERNAL_ERROR", v |-> s[o.s].v])
                       ELSE Change(s, o, Masked(x.v, o.m))
    [] o.a = "resize" -> Keep(s, o, IF o.n = Len(x.v) THEN x ELSE Axis(Resize(x.v, o.n)))
    [] o.a = "sorted" ->
         R([s EXCEPT ![o.s].asked = @ \cup {"sorted"}],
           [ret |-> "ok", v |-> x.v, sorted |-> Sorted(x.v), sus |-> x.sus /\ Sorted(x.v)])
    [] o.a = "log" ->
         R([s EXCEPT ![o.s].asked = @ \cup {"log"}],
           [ret |-> "ok", v |-> x.v, log |-> LogOf(x.v), steps |-> IF LogOf(x.v) = 1 THEN Steps(x) ELSE {}])
    [] o.a = "range" ->
         R(s, [ret |-> "ok", v |-> x.v,
               range |-> IF Len(x.v) < 2 THEN <<0, 0>> ELSE <<x.v[1], x.v[Len(x.v)]>>,
               clamp |-> Clamp(x.v, o.lo, o.hi), mask |-> MaskOf(x.v, o.lo, o.hi),
               overlap |-> Overlap(x.v, o.lo, o.hi, o.m),
               mean |-> IF Len(x.v) < 2 THEN 0 ELSE x.v[Len(x.v)] - x.v[1]])
    [] o.a = "at" ->
         R(s, [ret |-> "ok", v |-> x.v, idx |-> [i \in DOMAIN o.w |-> Idx(x.v, o.w[i]) - 1],
               res |-> [i \in DOMAIN o.w |-> ResAt(x.v, o.w[i])],
               rng |-> IF o.w = <<>> THEN <<>> ELSE <<Idx(x.v, Min(Range1(o.w))) - 1, Idx(x.v, Max(Range1(o.w))) - 1>>])
    [] o.a = "submask" ->
         LET c == IF LogOf(x.v) = 0 \/ o.b < 0 \/ o.e > Len(x.v) - 1 THEN "INTERNAL_ERROR" ELSE "ok" IN
         R([s EXCEPT ![o.s].asked = @ \cup {"log"}],
           [ret |-> IF LogOf(x.v) = 2 THEN "any" ELSE c, v |-> x.v, sub |-> SubMask(x.v, o.r, o.b, o.e)])

Near(a, b) == AbsI(a - b) <= 3
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ e.ret \in {b.ret, "any"}
  /\ e.v = b.v
  /\ \A k \in DOMAIN e \ {"sus", "log", "steps", "sub"} : k \in {"ret"} \/ e[k] = b[k]
  /\ "log" \in DOMAIN e =>
       /\ e.log \in {2, b.log}
       /\ b.log = 1 /\ e.log = 1 => /\ \E x \in e.steps : Near(x, b.step)
                                    /\ b.samestep /\ ~b.otherstep
       /\ e.log = 0 => b.step = "INTERNAL_ERROR"
  /\ "sub" \in DOMAIN e /\ b.ret = "ok" => e.sub = b.sub

Inv(s) == TRUE
\* what a grid answers depends on its samples alone
StepOK(s, o, r) ==
  /\ o.a \in {"sorted", "log", "range", "at", "submask"} => \A t \in Slots : r.st[t].v = s[t].v
  /\ \A t \in Slots \ {o.s} : r.st[t] = s[t]

Vals(s) == UNION {Range1(s[t].v) : t \in Slots}
Ok(v) == \A i \in DOMAIN v : AbsI(v[i]) <= MaxVal
NoZero(v) == \A i \in DOMAIN v : v[i] # 0
Same(v) == \A i, j \in DOMAIN v : v[i] * v[j] >= 0
Masks(n) == {m \in [1..n -> {0, 1}] : n < 5 \/ m[1] = m[3]}
Ops(s) ==
  [a : {"new"}, s : Slots, v : Grids] \cup {o \in [a : {"copy"}, s : Slots, t : Slots, how : {"assign", "ctor", "move"}] : o.s # o.t}
  \cup UNION {LET v == s[t].v
                  n == Len(v)
                  pos == n > 0 /\ v[1] > 0 IN
       (IF n = 0 THEN {} ELSE
        [a : {"clear"}, s : {t}]
        \cup {[a |-> "mul", s |-> t, k |-> k] : k \in {c \in {2, -1} : Ok(MapV(v, LAMBDA y : y * c))}}
        \cup {[a |-> "div", s |-> t, k |-> k] : k \in {c \in {2, -1} : \A i \in 1..n : v[i] % AbsI(c) = 0}}
        \cup {[a |-> "shift", s |-> u, t |-> t, k |-> k, fwd |-> TRUE] : u \in Slots, k \in {c \in {-1, 0, 2} : Ok(MapV(v, LAMBDA y : y * c))}}
        \cup {[a |-> "shift", s |-> u, t |-> t, k |-> k, fwd |-> FALSE] : u \in Slots, k \in {c \in {-1, 0, 2} : c < 2 \/ \A i \in 1..n : v[i] % c = 0}}
        \cup {[a |-> "offset", s |-> t, k |-> k] : k \in {c \in {0, 4, -3, 90} : LET w == MapV(v, LAMBDA y : y + c) IN Ok(w) /\ NoZero(w) /\ Same(w)}}
        \cup {[a |-> k, s |-> t, i |-> i, x |-> x] : k \in {"poke", "vec"}, i \in 0..(n - 1),
              x \in {c \in {3, 8, 32, -5} : (c > 0) = (v[1] > 0)}}
        \cup {[a |-> "extract", s |-> u, t |-> t, i |-> p[1], j |-> p[2]] : u \in Slots,
              p \in {q \in (0..(n - 1)) \X (0..(n - 1)) : q[1] <= q[2]}}
        \cup {[a |-> "mask", s |-> u, t |-> t, m |-> m] : u \in Slots, m \in Masks(n) \cup {<<1>>}}
        \cup {[a |-> "resize", s |-> t, n |-> k] : k \in 0..(n + 1)})
       \cup [a : {"sorted", "log"}, s : {t}]
       \cup {[a |-> "range", s |-> t, lo |-> r[1], hi |-> r[2], m |-> [i \in DOMAIN v |-> i % 2]] :
             r \in {<<1, 7>>, <<4, 32>>, <<-3, 2>>, <<16, 17>>, <<60, 1000>>}}
       \cup (IF n = 0 \/ ~Sorted(v) THEN {} ELSE {[a |-> "at", s |-> t, w |-> <<-3, 0, 1, 4, 5, 8, 15, 16, 17, 33, 64, 999>>]})
       \cup {[a |-> "submask", s |-> t, r |-> r, b |-> b, e |-> e] : r \in {1, 2, 3}, b \in {-1, 0, 1}, e \in {n - 1, n, n - 2}}
     : t \in Slots}
SimOps(s) == Ops(s)
=============================================================================
