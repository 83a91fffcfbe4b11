----------------------------- MODULE LineRules -----------------------------
(* Line model elements: how the lines are grouped into elements, which lines *)
(* lie outside the wavelength ranges, the amplitudes given by a fit, and the *)
(* amplitude rules.  Amplitudes are in 1/1024, nominal amplitudes in         *)
(* quarters.  An element is a sequence of lines with one amplitude each.     *)
EXTENDS Base
CONSTANTS Models, Amps, Stds, MaxOps

Nan == -99999999
Cap == 1024            \* the largest absorption amplitude
InitSt == [els |-> <<>>, rules |-> <<>>, n |-> 0]

\* ------------------------------------------------------------- composition
Filter(ls, P(_)) == SelectSeq(ls, P)
Groups(ls) == SetToSortSeq({ls[i].g : i \in DOMAIN ls} \ {0}, <)
Parts(ls, comp) ==
  CASE comp = "perline" -> [i \in DOMAIN ls |-> <<ls[i]>>]
    [] comp = "types" ->
         LET a == Filter(ls, LAMBDA l : l.t = "A")
             e == Filter(ls, LAMBDA l : l.t = "E")
         IN (IF a = <<>> THEN <<>> ELSE <<a>>) \o (IF e = <<>> THEN <<>> ELSE <<e>>)
    [] OTHER ->
         LET gs == Groups(ls)
             single == Filter(ls, LAMBDA l : l.g = 0)
         IN [k \in DOMAIN gs |-> Filter(ls, LAMBDA l : l.g = gs[k])]
            \o [k \in DOMAIN single |-> <<single[k]>>]
\* a line is outside when less than a third of its support is in some range
Out(pos, ranges) == \A k \in DOMAIN ranges : pos >= ranges[k][2] + 14 \/ pos <= ranges[k][1] - 14
Element(ls, ranges) ==
  [t |-> ls[1].t, names |-> [k \in DOMAIN ls |-> ls[k].name], f |-> [k \in DOMAIN ls |-> ls[k].f],
   nom |-> [k \in DOMAIN ls |-> ls[k].nom], out |-> [k \in DOMAIN ls |-> Out(ls[k].pos, ranges)],
   amp |-> [k \in DOMAIN ls |-> Nan], std |-> [k \in DOMAIN ls |-> Nan]]
Elements(o) == LET ps == Parts(o.lines, o.comp) IN [k \in DOMAIN ps |-> Element(ps[k], o.ranges)]

\* ------------------------------------------------------------ element state
AllOut(e) == \A k \in DOMAIN e.out : e.out[k]
Capped(e, x) == IF e.t = "A" THEN MinI(x, Cap) ELSE x
Fitted(e, a, s) ==
  IF a = Nan THEN [e EXCEPT !.amp = [k \in DOMAIN @ |-> Nan], !.std = [k \in DOMAIN @ |-> Nan]]
  ELSE [e EXCEPT !.amp = [k \in DOMAIN @ |-> IF e.out[k] THEN Nan ELSE Capped(e, (a * e.nom[k]) \div 4)],
                 !.std = [k \in DOMAIN @ |-> IF e.out[k] \/ s = Nan THEN Nan ELSE (s * e.nom[k]) \div 4]]
\* the whole element follows the line j when that is brought to v
Scaled(e, j, v) ==
  [e EXCEPT !.amp = [k \in DOMAIN @ |-> IF @[k] = Nan THEN Nan
                                        ELSE IF k = j THEN v ELSE Capped(e, (v * e.nom[k]) \div e.nom[j])]]
Limited(e, j, lim) == IF e.amp[j] = Nan \/ e.amp[j] <= lim THEN e ELSE Scaled(e, j, MaxI(0, lim))
RECURSIVE LimitWeak(_, _, _)
LimitWeak(e, j, lim) ==
  IF j > Len(e.amp) THEN e
  ELSE LimitWeak(IF e.f[j] = "W" /\ ~e.out[j] THEN Limited(e, j, lim) ELSE e, j + 1, lim)

\* -------------------------------------------------------------------- rules
StrongLines(els, t) ==
  {p \in {<<i, k>> : i \in DOMAIN els, k \in 1..12} :
     LET e == els[p[1]] IN
     /\ e.t = t /\ p[2] \in DOMAIN e.amp /\ e.f[p[2]] = "S" /\ ~e.out[p[2]] /\ e.amp[p[2]] # Nan}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Lowest(els, t) ==
  LET S == StrongLines(els, t)
      m == Min({els[p[1]].amp[p[2]] : p \in S})
  IN CHOOSE p \in S : els[p[1]].amp[p[2]] = m
       /\ \A q \in S : els[q[1]].amp[q[2]] = m => q = p \/ Before(p, q)
WeakLimit(els, t) == LET p == Lowest(els, t) IN els[p[1]].amp[p[2]] + els[p[1]].std[p[2]]
StrongWeak(els, t) ==
  IF StrongLines(els, t) = {} THEN els
  ELSE LET lim == WeakLimit(els, t)
       IN [i \in DOMAIN els |-> IF els[i].t = t THEN LimitWeak(els[i], 1, lim) ELSE els[i]]

Having(els, t, x) == {i \in DOMAIN els : els[i].t = t /\ x \in Range1(els[i].names)}
Place(els, t, x) ==
  LET i == Min(Having(els, t, x)) IN <<i, Min({k \in DOMAIN els[i].names : els[i].names[k] = x})>>
Pair(els, t, x, y) == \* the places of both lines, in two elements
  IF Having(els, t, x) = {} \/ Having(els, t, y) = {} THEN <<>>
  ELSE LET p == Place(els, t, x)  q == Place(els, t, y) IN IF p[1] = q[1] THEN <<>> ELSE <<p, q>>
AmpAt(els, p) == els[p[1]].amp[p[2]]
Two(els, t, x, y, c) ==
  LET w == Pair(els, t, x, y) IN
  IF w = <<>> THEN els
  ELSE LET a == AmpAt(els, w[1])  b == AmpAt(els, w[2])  lim == (a * c) \div 1000 IN
       IF Len(els[w[1][1]].amp) > 1 \/ Len(els[w[2][1]].amp) > 1 \/ Nan \in {a, b} \/ (a <= 0 /\ b <= 0) THEN els
       ELSE [els EXCEPT ![w[2][1]] = Limited(@, w[2][2], lim)]
Weighted(a1, e1, a2, e2, r) == \* r in halves
  a1 + (((a2 * r) \div 2 - a1) * e1 * e1 * 4) \div (e2 * e2 * r * r + e1 * e1 * 4)
Beyond(x, y, r) == 2 * AbsI(x) > r * AbsI(y)
Ratio(els, t, x, y, r) ==
  LET w == Pair(els, t, x, y) IN
  IF w = <<>> THEN els
  ELSE LET a == AmpAt(els, w[1])  b == AmpAt(els, w[2]) IN
       IF Nan \in {a, b} \/ ~(Beyond(a, b, r) \/ Beyond(b, a, r)) THEN els
       ELSE LET p == IF Beyond(a, b, r) THEN w[1] ELSE w[2]
                q == IF Beyond(a, b, r) THEN w[2] ELSE w[1]
                c == Weighted(AmpAt(els, p), els[p[1]].std[p[2]], AmpAt(els, q), els[q[1]].std[q[2]], r)
            IN [els EXCEPT ![p[1]] = Scaled(@, p[2], c), ![q[1]] = Scaled(@, q[2], (2 * c) \div r)]

\* the rules, in the order in which they are applied
Balmer == <<"Halpha", "Hbeta", "Hgamma", "Hdelta", "H8", "H9", "H10", "H11">>
AllRules ==
  [k \in 1..7 |-> [name |-> "balmersingle", t |-> "E", x |-> Balmer[k], y |-> Balmer[k + 1],
                   c |-> IF k = 1 THEN 385 ELSE IF k = 2 THEN 517 ELSE 1100]]
  \o <<[name |-> "ratioRange", t |-> "E", x |-> "[OII]3726", y |-> "[OII]3729", c |-> 5],
       [name |-> "strongWeak", t |-> "E", x |-> "", y |-> "", c |-> 0],
       [name |-> "strongWeak", t |-> "A", x |-> "", y |-> "", c |-> 0],
       [name |-> "ratioRange", t |-> "E", x |-> "[CIII]1907", y |-> "[CIII]1909", c |-> 4]>>
Rule(els, u) ==
  CASE u.name = "balmersingle" -> Two(els, u.t, u.x, u.y, u.c)
    [] u.name = "ratioRange" -> Ratio(els, u.t, u.x, u.y, u.c)
    [] OTHER -> StrongWeak(els, u.t)
Enabled(names) == SelectSeq(AllRules, LAMBDA u : names # <<"no">> /\ (names = <<"all">> \/ u.name \in Range1(names)))
RECURSIVE RunRules(_, _)
RunRules(els, us) == IF us = <<>> THEN els ELSE RunRules(Rule(els, us[1]), Tail(us))

\* --------------------------------------------------------------- transitions
Obs(els, ret) ==
  [ret |-> ret,
   els |-> [i \in DOMAIN els |-> [t |-> els[i].t, names |-> els[i].names, amp |-> els[i].amp,
                                  std |-> els[i].std, out |-> els[i].out, allout |-> AllOut(els[i])]]]
After(s, o) ==
  CASE o.a = "model" -> Elements(o)
    [] o.a = "fit" -> [s.els EXCEPT ![o.i] = Fitted(@, o.amp, o.std)]
    [] o.a = "weak" -> IF o.on THEN StrongWeak(s.els, o.t) ELSE s.els
    [] o.a = "two" -> IF o.on THEN Two(s.els, o.t, o.x, o.y, o.c) ELSE s.els
    [] o.a = "ratio" -> IF o.on THEN Ratio(s.els, o.t, o.x, o.y, o.r) ELSE s.els
    [] o.a = "apply" -> RunRules(s.els, s.rules)
    [] OTHER -> s.els
Apply(s, o) ==
  LET t == [s EXCEPT !.n = @ + 1, !.els = After(s, o),
                     !.rules = IF o.a = "model" THEN <<>> ELSE IF o.a = "rules" THEN Enabled(o.names) ELSE @]
  IN R(t, Obs(t.els, "ok"))

Names(s, t) == UNION {Range1(s.els[i].names) : i \in {j \in DOMAIN s.els : s.els[j].t = t}}
Ready(s) == \A i \in DOMAIN s.els : AllOut(s.els[i]) \/ \E k \in DOMAIN s.els[i].amp : s.els[i].amp[k] # Nan
Ops(s) ==
  IF s.els = <<>> THEN Models
  ELSE IF s.n >= MaxOps THEN {}
  ELSE IF ~Ready(s) THEN
    LET i == Min({j \in DOMAIN s.els : ~AllOut(s.els[j]) /\ \A k \in DOMAIN s.els[j].amp : s.els[j].amp[k] = Nan})
    IN {[a |-> "fit", i |-> i, amp |-> x, std |-> y] : x \in Amps, y \in Stds}
  ELSE {[a |-> "weak", t |-> t, on |-> TRUE] : t \in {"E", "A"}}
       \cup {[a |-> "two", t |-> "E", x |-> x, y |-> y, c |-> 385, on |-> TRUE] : x, y \in Names(s, "E")}
       \cup {[a |-> "ratio", t |-> "E", x |-> x, y |-> y, r |-> 5, on |-> TRUE] : x, y \in Names(s, "E")}
       \cup {[a |-> "rules", names |-> <<"all">>], [a |-> "rules", names |-> <<"no">>], [a |-> "apply"]}
SimOps(s) == Ops(s)

\* --------------------------------------------------------------- properties
Inv(s) ==
  \A i \in DOMAIN s.els : LET e == s.els[i] IN
    \A k \in DOMAIN e.amp : /\ e.out[k] => e.amp[k] = Nan /\ e.std[k] = Nan
                            /\ e.t = "A" => e.amp[k] <= Cap
Mixed(e) == {"S", "W"} \subseteq {e.f[k] : k \in {j \in DOMAIN e.f : ~e.out[j]}}
Close(els, els2) == \A i \in DOMAIN els : \A k \in DOMAIN els[i].amp : AbsI(els[i].amp[k] - els2[i].amp[k]) <= 12
Same(s, r, keep) == \A i \in DOMAIN s.els : i \in keep => r.st.els[i] = s.els[i]
Outside(s, t) == {i \in DOMAIN s.els : s.els[i].t # t}
StepOK(s, o, r) ==
  LET els == s.els  new == r.st.els IN
  CASE o.a = "model" -> \A i \in DOMAIN new : \A k \in DOMAIN new[i].amp : new[i].amp[k] = Nan
    [] o.a = "fit" -> Same(s, r, DOMAIN els \ {o.i})
    [] o.a = "rules" \/ (o.a \in {"weak", "two", "ratio"} /\ ~o.on) \/ (o.a = "apply" /\ s.rules = <<>>) ->
         new = els
    [] o.a = "weak" ->
         /\ Same(s, r, Outside(s, o.t))
         /\ Same(s, r, {i \in DOMAIN els : \A k \in DOMAIN els[i].f : els[i].f[k] = "S" \/ els[i].out[k]})
         /\ StrongLines(els, o.t) = {} => new = els
         /\ StrongLines(els, o.t) # {} =>
              LET lim == WeakLimit(els, o.t) IN
              \A i \in DOMAIN els : \A k \in DOMAIN els[i].amp :
                LET e == new[i] IN
                /\ els[i].t = o.t /\ e.f[k] = "W" /\ ~e.out[k] => e.amp[k] = Nan \/ e.amp[k] <= MaxI(lim, 0)
                /\ e.amp[k] <= MaxI(els[i].amp[k], 0) /\ e.std[k] = els[i].std[k]
                /\ (e.amp[k] = Nan) = (els[i].amp[k] = Nan)
         /\ (\A i \in DOMAIN els : ~Mixed(els[i])) => Close(StrongWeak(new, o.t), new)
    [] o.a = "two" ->
         LET w == Pair(els, o.t, o.x, o.y) IN
         /\ Same(s, r, IF w = <<>> THEN DOMAIN els ELSE DOMAIN els \ {w[2][1]})
         /\ w # <<>> /\ (\A z \in {1, 2} : Len(els[w[z][1]].amp) = 1) /\ Nan \notin {AmpAt(els, w[1]), AmpAt(els, w[2])} =>
              AmpAt(new, w[2]) <= MaxI(0, (o.c * AmpAt(new, w[1])) \div 1000)
         /\ Two(new, o.t, o.x, o.y, o.c) = new
    [] o.a = "ratio" ->
         LET w == Pair(els, o.t, o.x, o.y) IN
         /\ Same(s, r, IF w = <<>> THEN DOMAIN els ELSE DOMAIN els \ {w[1][1], w[2][1]})
         /\ w # <<>> /\ Nan \notin {AmpAt(els, w[1]), AmpAt(els, w[2])} =>
              LET a == AbsI(AmpAt(new, w[1]))  b == AbsI(AmpAt(new, w[2])) IN
              2 * a <= o.r * b + 8 /\ 2 * b <= o.r * a + 8
         /\ Close(Ratio(new, o.t, o.x, o.y, o.r), new)
    [] OTHER -> \A i \in DOMAIN els : new[i].std = els[i].std

Near(x, y) == x = y \/ (x # Nan /\ y # Nan /\ AbsI(x - y) <= 14)
Match(a, b) ==
  /\ "ret" \in DOMAIN b
  /\ a.ret = b.ret /\ Len(a.els) = Len(b.els)
  /\ \A i \in DOMAIN a.els :
       LET e == a.els[i]  d == b.els[i] IN
       /\ e.t = d.t /\ e.names = d.names /\ e.out = d.out /\ e.allout = d.allout
       /\ \A k \in DOMAIN e.amp : Near(e.amp[k], d.amp[k]) /\ e.std[k] = d.std[k]
=============================================================================
