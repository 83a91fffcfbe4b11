----------------------------- MODULE CalibLines -----------------------------
(* Loading line catalogues and line ratio catalogues from their files.  One  *)
(* operation loads everything for the given models; wavelengths are in       *)
(* thousandths, a line is known by its name, its type and its wavelength in  *)
(* hundredths.                                                               *)
EXTENDS Base
CONSTANTS Loads

InitSt == 0
\* rows are <<wavelength, name, type, force, profile, group, value, velocity group, offset, fit>>
Near100(w) == (w + 5) \div 10
Key(r) == <<r[2], Near100(r[1]), r[3]>>
RKey(r) == <<r[2], Near100(r[1]), r[3]>>
Unique(rows) == Cardinality({Key(rows[i]) : i \in DOMAIN rows}) = Len(rows)
TypeOf(t) == CASE t \in {"E", "Em"} -> "E" [] t \in {"A", "Abs"} -> "A" [] OTHER -> "bad"
RowErr(r) ==
  IF r[5] = "ASYMFIXED" THEN "PYTHON_API_ERROR"
  ELSE IF TypeOf(r[3]) = "bad" THEN "BAD_LINE_TYPE"
  ELSE IF r[4] \notin {"S", "W"} THEN "BAD_LINE_FORCE"
  ELSE IF r[5] \notin {"SYM", "LOR", "ASYM", "ASYMFIT", "SYMIGM"} THEN "INTERNAL_ERROR" ELSE "ok"
First(errs) == IF errs = <<>> THEN "ok"
               ELSE LET bad == {i \in DOMAIN errs : errs[i] # "ok"} IN IF bad = {} THEN "ok" ELSE errs[Min(bad)]
CatErr(c) ==
  IF c.missing THEN "INVALID_FILEPATH"
  ELSE IF ~Unique(c.rows) THEN "DUPLICATED_LINES" ELSE First([i \in DOMAIN c.rows |-> RowErr(c.rows[i])])
\* the lines as they are loaded: identified by their row
Igm(c, r) == c.igm /\ TypeOf(r[3]) = "E" /\ (r[2] = "LyAE" \/ r[1] < 1216000)
Loaded(c) == [i \in DOMAIN c.rows |-> LET r == c.rows[i] IN
   <<i - 1, r[2], r[1], r[3], r[4], IF Igm(c, r) THEN "SYMIGM" ELSE r[5],
     IF r[6] = "-1" THEN "undefined" ELSE r[6], r[7], r[8], r[9], r[10], Near100(r[1])>>]
\* a ratio catalogue: [name, rows <<wavelength, name, type, value>>, json]
RatErr(c, q) ==
  IF q.nojson THEN "INVALID_FILEPATH"
  ELSE IF ~Unique(q.rows) THEN "DUPLICATED_LINES"
  ELSE IF \E i \in DOMAIN q.rows : \A j \in DOMAIN c.rows : RKey(q.rows[i]) # Key(c.rows[j]) THEN "LINE_RATIO_UNKNOWN_LINE"
  ELSE IF q.prof \notin {"ASYM", "ASYMFIT", "ASYMFIXED", "SYM"} /\
          (\E i \in DOMAIN c.rows : Loaded(c)[i][6] \in {"ASYM", "ASYMFIT"}) THEN "INTERNAL_ERROR"
  ELSE "ok"
Ratio(c, q, k) ==
  [name |-> q.name, ism |-> k, em |-> q.em, abs |-> q.abs,
   lines |-> [i \in DOMAIN c.rows |->
      LET l == Loaded(c)[i]
          m == {j \in DOMAIN q.rows : RKey(q.rows[j]) = Key(c.rows[i])} IN
      <<l[1], IF m = {} THEN 0 ELSE q.rows[CHOOSE j \in m : TRUE][4],
        IF l[6] \in {"ASYM", "ASYMFIT"} THEN q.prof ELSE l[6],
        IF l[6] \in {"ASYM", "ASYMFIT"} /\ q.prof # "SYM" THEN q.asym ELSE IF l[6] \in {"ASYM", "ASYMFIT"} THEN <<0, 0, 0>>
        ELSE <<0, 0, 0>>>>]]
NCopies(m) == IF m.ismfit THEN m.nebmv ELSE 1
Ratios(m) ==
  LET n == NCopies(m) IN
  [j \in 1..(n * Len(m.rats)) |-> Ratio(m.cat, m.rats[1 + ((j - 1) \div n)], (j - 1) % n)]
\* models: [name, cat, meas, rats, ismfit, nebmv, tpl]; catalogues are loaded in this order
ModelErr(m) ==
  IF CatErr(m.cat) # "ok" THEN CatErr(m.cat)
  ELSE IF m.tpl /\ m.rats = <<>> THEN "INVALID_FILEPATH"
  ELSE IF m.tpl /\ First([j \in DOMAIN m.rats |-> RatErr(m.cat, m.rats[j])]) # "ok"
       THEN First([j \in DOMAIN m.rats |-> RatErr(m.cat, m.rats[j])])
  ELSE IF m.hasmeas THEN CatErr(m.meas) ELSE "ok"
View(m) == [name |-> m.name, cat |-> Loaded(m.cat), meas |-> IF m.hasmeas THEN Loaded(m.meas) ELSE <<>>,
            rats |-> IF m.tpl THEN Ratios(m) ELSE <<>>,
            share |-> IF m.tpl THEN NCopies(m) * Len(m.rats) ELSE 0,
            subs |-> IF m.tpl THEN [j \in DOMAIN m.rats |-> m.rats[j].sub] ELSE <<>>]
Obs(o) ==
  LET e == First([j \in DOMAIN o.models |-> ModelErr(o.models[j])]) IN
  IF e # "ok" THEN [ret |-> e] ELSE [ret |-> "ok", models |-> [j \in DOMAIN o.models |-> View(o.models[j])]]
Apply(s, o) == R(s, Obs(o))
Ops(s) == Loads
SimOps(s) == Ops(s)
Inv(s) == TRUE
\* priors of one model's ratio catalogues add up to one, and every line is in exactly one group
StepOK(s, o, r) == r.obs.ret # "ok" \/ \A j \in DOMAIN o.models : Len(r.obs.models[j].rats) = r.obs.models[j].share
Match(e, b) == "ret" \in DOMAIN b /\ e = b
=============================================================================
