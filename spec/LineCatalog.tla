---------------------------- MODULE LineCatalog -----------------------------
(* The line catalogue, the line ratio catalogues copied from it and the list *)
(* of stored ratio catalogues.  A catalogue holds one line per identifier;   *)
(* every copy is independent of what it was copied from.                     *)
EXTENDS Base
CONSTANTS Defs, IdSet, Amps, AsymSet, MaxRat, MaxStored

NoAsym == <<-99, -99, -99>>
LyaPos == 1216
NSigma == 8
\* profile, asymmetry (sigma, alpha, delta) in halves and centering
Prof(p, asym, kind) ==
  CASE p \in {"ASYMFIXED", "myASYMFIXED2"} -> <<"ASYM", asym, "mean">>
    [] p = "SYM" -> <<"SYM", NoAsym, "none">>
    [] p = "LOR" -> <<"LOR", NoAsym, "none">>
    [] p = "ASYM" -> <<"ASYM", IF kind = "add" THEN <<2, 9, 0>> ELSE asym, "none">>
    [] p = "ASYMFIT" -> <<"ASYMFIT", IF kind = "add" THEN <<4, 4, 0>> ELSE asym, "mean">>
    [] p = "SYMIGM" -> <<"SYMIGM", NoAsym, "none">>
    [] OTHER -> <<"bad">>
\* the support of the profile, in tenths of a width
Support(p) == CASE p[1] = "LOR" -> 2 * NSigma * 10
                [] p[1] \in {"ASYM", "ASYMFIT"} -> IF p[3] = "mean" THEN (NSigma * p[2][1] * 25) \div 2 ELSE (NSigma * p[2][1] * 10) \div 2
                [] OTHER -> NSigma * 10
Type(t) == CASE t = "no" -> 3 [] t \in {"E", "Em"} -> 2 [] t \in {"A", "Abs"} -> 1 [] OTHER -> 0
Force(t) == CASE t = "no" -> 3 [] t \in {"S", "Strong"} -> 2 [] t \in {"W", "Weak"} -> 1 [] OTHER -> 0

\* rats[k], stored[k]: [name, l, vel, prior, ism]; catalogue 0 is the main one
InitSt == [main |-> EmptyFn, rats |-> <<>>, stored |-> <<>>]
Lst(s, t) == IF t = 0 THEN s.main ELSE s.rats[t].l
SetLst(s, t, l) == IF t = 0 THEN [s EXCEPT !.main = l] ELSE [s EXCEPT !.rats[t].l = l]

Line(o) == [name |-> o.d.name, pos |-> o.d.pos, type |-> Type(o.d.type), force |-> Force(o.d.force),
            prof |-> Prof(o.d.prof, o.asym, "add"), grp |-> o.d.grp, amp |-> o.amp, vg |-> o.d.vg,
            off |-> o.d.off, fit |-> o.d.fit, sid |-> o.d.sid]
IsAsym(l) == l.prof[1] \in {"ASYM", "ASYMFIT"}

Ids(f) == SetToSortSeq(DOMAIN f, <)
Row(f, i) == LET l == f[i] IN
  <<i, l.name, l.pos, l.type, l.force, l.prof[1], l.prof[2], Support(l.prof),
    l.grp, l.amp, l.vg, l.off, l.fit, l.sid>>
Rows(f) == [n \in 1..Cardinality(DOMAIN f) |-> Row(f, Ids(f)[n])]
Sel(f, ty, fo) == SetToSortSeq({i \in DOMAIN f : (ty = 3 \/ f[i].type = ty) /\ (fo = 3 \/ f[i].force = fo)}, <)
GrpOf(l) == IF l.grp = "undefined" THEN "single_" \o l.sid ELSE l.grp
Grps(f) == {<<g, SetToSortSeq({i \in DOMAIN f : GrpOf(f[i]) = g}, <)>> : g \in {GrpOf(f[i]) : i \in DOMAIN f}}
View(f) == [rows |-> Rows(f), sel |-> [n \in 1..9 |-> Sel(f, 1 + ((n - 1) \div 3), 1 + ((n - 1) % 3))], grp |-> Grps(f)]
RView(r) == [rows |-> Rows(r.l), name |-> r.name, prior |-> r.prior, ism |-> r.ism,
             vel |-> [k \in 1..2 |-> LET v == IF k = 1 THEN "em_vel" ELSE "abs_vel" IN
                        IF HasKey(r.vel, v) THEN r.vel[v] ELSE -1]]
Obs(s, ret) == [ret |-> ret, main |-> View(s.main),
                rats |-> [k \in DOMAIN s.rats |-> RView(s.rats[k])],
                rv |-> [k \in DOMAIN s.rats |-> View(s.rats[k].l)],
                stored |-> [k \in DOMAIN s.stored |-> RView(s.stored[k])],
                priors |-> [k \in DOMAIN s.stored |-> s.stored[k].prior]]
Done(s, ret) == R(s, Obs(s, ret))

Apply(s, o) ==
  CASE o.a = "add" ->
         IF Type(o.d.type) = 0 THEN Done(s, "BAD_LINE_TYPE")
         ELSE IF Force(o.d.force) = 0 THEN Done(s, "BAD_LINE_FORCE")
         ELSE IF Prof(o.d.prof, o.asym, "add") = <<"bad">> THEN Done(s, "INTERNAL_ERROR")
         ELSE Done(SetLst(s, o.t, Put(Lst(s, o.t), o.id, Line(o))), "ok")
    [] o.a = "amp" ->
         IF ~HasKey(Lst(s, o.t), o.id) THEN Done(s, "INTERNAL_ERROR")
         ELSE Done(SetLst(s, o.t, [Lst(s, o.t) EXCEPT ![o.id].amp = o.x]), "ok")
    [] o.a = "asym" ->
         LET l == Lst(s, o.t)
             p == Prof(o.p, o.asym, "set") IN
         IF \A i \in DOMAIN l : ~IsAsym(l[i]) THEN Done(s, "ok")
         ELSE IF p = <<"bad">> THEN Done(s, "INTERNAL_ERROR")
         ELSE Done(SetLst(s, o.t, [i \in DOMAIN l |-> IF IsAsym(l[i]) THEN [l[i] EXCEPT !.prof = p] ELSE l[i]]), "ok")
    [] o.a = "igm" ->
         LET l == Lst(s, o.t) IN
         Done(SetLst(s, o.t, [i \in DOMAIN l |->
              IF l[i].type = 2 /\ (l[i].name = "LyAE" \/ l[i].pos < LyaPos)
              THEN [l[i] EXCEPT !.prof = Prof("SYMIGM", NoAsym, "set")] ELSE l[i]]), "ok")
    [] o.a = "ratio" ->
         Done([s EXCEPT !.rats = Append(@, [name |-> o.n, l |-> [i \in DOMAIN s.main |-> [s.main[i] EXCEPT !.amp = 0]],
                                          vel |-> EmptyFn, prior |-> 1, ism |-> 0])], "ok")
    [] o.a = "vel" ->
         IF HasKey(s.rats[o.t].vel, o.n) THEN Done(s, "INTERNAL_ERROR")
         ELSE Done([s EXCEPT !.rats[o.t].vel = Put(@, o.n, o.x)], "ok")
    [] o.a = "prior" -> Done([s EXCEPT !.rats[o.t].prior = o.x], "ok")
    [] o.a = "ism" -> Done([s EXCEPT !.rats[o.t].ism = o.x], "ok")
    [] o.a = "store" -> Done([s EXCEPT !.stored = Append(@, s.rats[o.t])], "ok")

Tgt(s) == 0..Len(s.rats)
Ops(s) ==
  {[a |-> "add", t |-> t, id |-> i, d |-> d, asym |-> as, amp |-> x] :
      t \in Tgt(s), i \in IdSet, d \in Defs, as \in {CHOOSE as \in AsymSet : TRUE}, x \in {1}}
  \cup {[a |-> "amp", t |-> t, id |-> i, x |-> x] : t \in Tgt(s), i \in IdSet, x \in Amps}
  \cup {[a |-> "asym", t |-> t, p |-> p, asym |-> as] : t \in Tgt(s), as \in AsymSet,
            p \in {"ASYM", "ASYMFIT", "ASYMFIXED", "SYM", "bad"}}
  \cup {[a |-> "igm", t |-> t] : t \in Tgt(s)}
  \cup (IF Len(s.rats) >= MaxRat THEN {} ELSE {[a |-> "ratio", n |-> n] : n \in {"r1"}})
  \cup UNION {{[a |-> "vel", t |-> t, n |-> n, x |-> 7] : n \in {"em_vel", "abs_vel"}}
              \cup {[a |-> "prior", t |-> t, x |-> 5], [a |-> "ism", t |-> t, x |-> 2]}
              \cup (IF Len(s.stored) >= MaxStored THEN {} ELSE {[a |-> "store", t |-> t]}) : t \in 1..Len(s.rats)}
SimOps(s) == Ops(s)

\* no line belongs to two groups, none is lost by grouping or by filtering
Partition(f) ==
  /\ \A i \in DOMAIN f : Cardinality({g \in Grps(f) : i \in Range1(g[2])}) = 1
  /\ \A i \in DOMAIN f : i \in Range1(Sel(f, f[i].type, f[i].force))
Inv(s) == Partition(s.main) /\ \A k \in DOMAIN s.rats : Partition(s.rats[k].l)
\* only the catalogue that is named changes, and only the line that is named
StepOK(s, o, r) ==
  /\ (r.obs.ret # "ok") => r.st = s
  /\ (o.a \in {"add", "amp", "asym", "igm"}) =>
        \A t \in Tgt(s) \ {o.t} : Lst(r.st, t) = Lst(s, t)
  /\ (o.a \in {"add", "amp"}) => \A i \in DOMAIN Lst(s, o.t) \ {o.id} : Lst(r.st, o.t)[i] = Lst(s, o.t)[i]
  /\ SubSeq(r.st.stored, 1, Len(s.stored)) = s.stored
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ \A k \in DOMAIN e \ {"main", "rv"} : k \in DOMAIN b /\ e[k] = b[k]
  /\ \A k \in {"rows", "sel"} : e.main[k] = b.main[k]
  /\ e.main.grp = Range1(b.main.grp) /\ Len(b.main.grp) = Cardinality(e.main.grp)
  /\ \A t \in DOMAIN e.rv : e.rv[t].sel = b.rv[t].sel /\ e.rv[t].grp = Range1(b.rv[t].grp)
=============================================================================
