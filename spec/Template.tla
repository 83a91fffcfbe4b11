------------------------------ MODULE Template ------------------------------
(* Extinction state of templates: dust (ISM) and intergalactic (IGM)         *)
(* corrections applied incrementally over a range of samples.  Fluxes are    *)
(* powers of two, given by their exponent: a correction subtracts.           *)
EXTENDS Base
CONSTANTS Slots,    \* number of templates
          NSamp,    \* samples of a new template
          NDust, NIgm, Zs, Ranges, Amps, MaxMask, MaxAmp

\* wavelength (tenths of angstroms) of the samples of a new template
Lambda == <<11900, 12050, 12120, 12150, 12250, 12300>>
LyA == 12156
\* cell of the dust curve (12000 to 12280, the end excluded): 0 outside
DCell(w) == IF w < 12000 \/ w >= 12280 THEN 0 ELSE 1 + (w - 12000) \div 40
DustE(d, w) == IF d < 0 \/ DCell(w) = 0 THEN 0 ELSE d * DCell(w)
\* intergalactic correction: below the first wavelength (12000), its value
ICell(w) == IF w < 12000 THEN 0 ELSE (w - 12000) \div 30
IgmE(z, i, w) == IF i < 0 THEN 0 ELSE (z + 1) * (10 + i) + ICell(w) * (i + 1)
\* redshift bins 2-3 and 3-4 (tenths); above: the last one
ZBin(z) == IF z < 20 THEN -1 ELSE IF z < 30 THEN 0 ELSE 1
Base0(k) == 3 * k

Fresh == [w |-> SubSeq(Lambda, 1, NSamp), b |-> [k \in 1..NSamp |-> Base0(k)],
          on |-> FALSE, d |-> -1, i |-> -1, z |-> -1, ks |-> -1, ke |-> -1, ie |-> -1,
          calz |-> FALSE, meik |-> FALSE, ty |-> "raw", am |-> 0]
InitSt == [t |-> [x \in 1..Slots |-> Fresh]]

N(t) == Len(t.w)
\* last of samples ks..ke (from 0) inside the reach of the igm
IgmEnd(t, ks, ke) == LET S == {k \in ks..ke : t.w[k + 1] <= LyA} IN
                     IF S = {} THEN -1 ELSE Max(S)
DApp(t, k) == IF t.on /\ k >= t.ks /\ k <= t.ke THEN DustE(t.d, t.w[k + 1]) ELSE 0
IApp(t, k) == IF t.on /\ k >= t.ks /\ k <= t.ie THEN IgmE(t.z, t.i, t.w[k + 1]) ELSE 0
Flux(t) == [k \in 1..N(t) |-> t.b[k] + t.am - DApp(t, k - 1) - IApp(t, k - 1)]
Iota(n) == [k \in 1..n |-> k - 1]
ObsT(t) ==
  [w |-> t.w, flux |-> Flux(t), on |-> t.on,
   d |-> IF t.on THEN t.d ELSE -9, i |-> IF t.on THEN t.i ELSE -9,
   range |-> IF t.on THEN <<t.ks, t.ke>> ELSE <<>>,
   iend |-> IF t.on /\ t.meik THEN t.ie ELSE -9,
   cd |-> IF t.on THEN [k \in 1..N(t) |-> -DApp(t, k - 1)] ELSE <<>>,
   ci |-> IF t.on THEN [k \in 1..N(t) |-> -IApp(t, k - 1)] ELSE <<>>,
   ism |-> IF t.calz THEN Iota(NDust) ELSE <<-9>>, ism1 |-> IF t.calz THEN <<1>> ELSE <<-9>>,
   igm |-> IF t.meik THEN Iota(NIgm) ELSE <<-9>>, igm1 |-> IF t.meik THEN <<1>> ELSE <<-9>>,
   no |-> <<-1, -1>>, ty |-> t.ty]
Obs(s, ret) == [ret |-> ret, t |-> [x \in 1..Slots |-> ObsT(s.t[x])]]
Ret(s, ret) == R(s, Obs(s, ret))
Upd(s, x, t, ret) == LET u == [s EXCEPT !.t[x] = t] IN R(u, Obs(u, ret))

Give(t, o) == [t EXCEPT !.calz = (@ \/ o.g \in {"calz", "both"}), !.meik = (@ \/ o.g \in {"meik", "both"})]
Conf(s, o, ks, ke) ==
  LET t == Give(s.t[o.t], o)
      ie == IF t.meik THEN IgmEnd(t, ks, ke) ELSE -1
      z == IF t.meik THEN ZBin(o.z) ELSE -1
  IN IF (~t.calz /\ ~t.meik) \/ ks < 0 \/ ks >= N(t) \/ ke < 0 \/ ke >= N(t) \/ (z = -1 /\ ie # -1)
     THEN Upd(s, o.t, t, "INTERNAL_ERROR")
     ELSE Upd(s, o.t, [t EXCEPT !.on = TRUE, !.d = -1, !.i = -1, !.z = z,
                                !.ks = ks, !.ke = ke, !.ie = ie], "ok")
Off(t) == [t EXCEPT !.on = FALSE]
InW(w, lo, hi) == {k \in 1..Len(w) : w[k] >= lo /\ w[k] <= hi}
\* the samples kept by a mask
Kept(t, m) == SelectSeq([k \in 1..N(t) |-> k], LAMBDA k : m[k] = 1)
Masked(t, m) ==
  LET K == Kept(t, m)
      w == [j \in DOMAIN K |-> t.w[K[j]]]
      u == [t EXCEPT !.w = w,
                     !.b = [j \in DOMAIN K |-> t.b[K[j]]]]
      in == {j \in DOMAIN K : K[j] - 1 >= t.ks /\ K[j] - 1 <= t.ke}
      v == [u EXCEPT !.ks = Min(in) - 1, !.ke = Max(in) - 1]
  IN IF ~t.on THEN u ELSE IF in = {} THEN Off(u)
     ELSE [v EXCEPT !.ie = IF t.ie # -1 THEN IgmEnd(v, v.ks, v.ke) ELSE -1]

Apply(s, o) ==
  LET t == s.t[o.t] IN
  CASE o.a = "init" -> Conf(s, o, o.ks, o.ke)
    [] o.a = "full" -> Conf(s, o, 0, N(t) - 1)
    [] o.a = "range" ->
         LET S == InW(t.w, o.lo, o.hi) IN
         IF o.hi < t.w[1] \/ o.lo > t.w[N(t)] THEN Ret(s, "CRANGE_VECTBORDERS_OUTSIDERANGE")
         ELSE IF S = {} THEN Ret(s, "CRANGE_NO_INTERSECTION")
         ELSE Conf(s, o, Min(S) - 1, Max(S) - 1)
    [] o.a = "dust" ->
         IF ~t.on \/ ~t.calz \/ o.k >= NDust THEN Ret(s, "INTERNAL_ERROR")
         ELSE Upd(s, o.t, [t EXCEPT !.d = o.k], "true")
    [] o.a = "igm" ->
         IF ~t.on \/ ~t.meik THEN Ret(s, "INTERNAL_ERROR")
         ELSE Upd(s, o.t, [t EXCEPT !.i = o.k], IF t.ie = -1 THEN "false" ELSE "true")
    [] o.a = "amp" -> Upd(s, o.t, [t EXCEPT !.am = @ + o.e], "ok")
    [] o.a = "off" -> Upd(s, o.t, Off(t), "ok")
    [] o.a = "flux" -> Upd(s, o.t, [Off(t) EXCEPT !.ty = "raw", !.b = [k \in 1..N(t) |-> k], !.am = 0], "ok")
    [] o.a = "type" -> Upd(s, o.t, IF t.ty = o.ty THEN t ELSE [Off(t) EXCEPT !.ty = o.ty], "ok")
    [] o.a = "ctype" ->
         IF t.ty # o.ty /\ t.on THEN Ret(s, "INTERNAL_ERROR")
         ELSE Upd(s, o.t, [t EXCEPT !.ty = o.ty], "ok")
    [] o.a \in {"copy", "assign"} -> Upd(s, o.u, t, "ok")
    [] o.a \in {"move", "moveassign"} ->
         LET v == [s EXCEPT !.t[o.t] = Fresh] IN Upd(v, o.u, t, "ok")
    [] o.a = "mask" -> Upd(s, o.t, Masked(t, o.m), "ok")
    [] o.a = "again" -> Upd(s, o.t, Fresh, "ok")

Tys == {"raw", "noContinuum"}
Gives == {"no", "calz", "meik", "both"}
TOps(s, x) ==
  LET t == s.t[x]
      n == N(t) IN
     {[a |-> "init", t |-> x, ks |-> r[1], ke |-> r[2], z |-> z, g |-> g] : r \in {q \in Ranges : q[1] <= q[2] \/ q[2] < 0}, z \in Zs, g \in Gives}
  \cup {[a |-> "full", t |-> x, z |-> z, g |-> g] : z \in Zs, g \in {"no", "both"}}
  \cup {[a |-> "dust", t |-> x, k |-> k] : k \in -1..NDust}
  \cup {[a |-> "igm", t |-> x, k |-> k] : k \in -1..(NIgm - 1)}
  \cup {[a |-> "amp", t |-> x, e |-> e] : e \in {e \in Amps : t.am + e \in -MaxAmp..MaxAmp}}
  \cup {[a |-> "off", t |-> x], [a |-> "flux", t |-> x]}
  \cup {[a |-> c, t |-> x, ty |-> y] : c \in {"type", "ctype"}, y \in Tys}
  \cup {[a |-> c, t |-> x, u |-> u] : c \in {"copy", "assign", "move"}, u \in 1..Slots}
  \cup {[a |-> "moveassign", t |-> x, u |-> u] : u \in 1..Slots \ {x}}
  \cup (IF n < NSamp THEN {[a |-> "again", t |-> x]} ELSE {})
RangeOps(s, x) ==
  {[a |-> "range", t |-> x, lo |-> p[1], hi |-> p[2], z |-> z, g |-> "no"] :
      p \in {<<11000, 11800>>, <<11000, 12050>>, <<12051, 12119>>, <<12050, 12150>>, <<12130, 12270>>,
             <<12160, 12400>>, <<12301, 12400>>}, z \in Zs}
MaskOps(s, x) ==
  LET n == N(s.t[x]) IN
  {[a |-> "mask", t |-> x, m |-> m] :
     m \in {m \in [1..n -> {0, 1}] : LET c == Cardinality({k \in 1..n : m[k] = 0}) IN
              c > 0 /\ n - c >= 1 /\ c <= MaxMask}}
Ops(s) == UNION {TOps(s, x) \cup RangeOps(s, x) \cup MaskOps(s, x) : x \in 1..Slots}
SimOps(s) == Ops(s)

Inv(s) == \A x \in 1..Slots : LET t == s.t[x] IN
  /\ t.on => t.ks \in 0..(N(t) - 1) /\ t.ke \in t.ks..(N(t) - 1) /\ t.ie \in {-1} \cup (t.ks..t.ke)
  /\ \A k \in 0..(N(t) - 1) : (~t.on \/ k < t.ks \/ k > t.ke) => Flux(t)[k + 1] = t.b[k + 1] + t.am
\* the other templates are never concerned, except the target of a copy
StepOK(s, o, r) ==
  /\ \A x \in 1..Slots : (x # o.t /\ ~("u" \in DOMAIN o /\ x = o.u)) => r.st.t[x] = s.t[x]
  /\ r.obs.ret \notin {"ok", "true", "false"} =>
       Flux(r.st.t[o.t]) = Flux(s.t[o.t]) /\ r.st.t[o.t].d = s.t[o.t].d /\ r.st.t[o.t].i = s.t[o.t].i
Match(a, b) == "ret" \in DOMAIN b /\ a = b
=============================================================================
