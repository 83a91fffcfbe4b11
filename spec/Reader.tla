------------------------------- MODULE Reader -------------------------------
(* The spectrum reader (AbstractSpectrumReader.py): columns loaded in any    *)
(* order for any observation, then initialised into spectra.  A wavelength   *)
(* w stands for 4000 + 10 w; other cells are small integers.                 *)
EXTENDS Base
CONSTANTS Mode
F == INSTANCE Filters WITH Mode <- "x"

Main == <<"wave", "flux", "err">>
Cfg0 == [multi |-> "", range |-> <<0, 9>>, ranges |-> EmptyFn, filters |-> <<>>, lsf |-> "param",
         air |-> "", frame |-> "vacuum", others |-> <<>>]
Vacant(c) == [x \in Range1(Main) \cup Range1(c.others) |-> <<>>]
\* a column: the observations in the order of their first load, with values
Loaded(col) == {col[i].obs : i \in DOMAIN col}
Cell(col, obs) == LET i == CHOOSE i \in DOMAIN col : col[i].obs = obs IN col[i].v
Store(col, obs, v) == IF obs \in Loaded(col)
                      THEN [i \in DOMAIN col |-> IF col[i].obs = obs THEN [obs |-> obs, v |-> v] ELSE col[i]]
                      ELSE Append(col, [obs |-> obs, v |-> v])
New(c) == [cfg |-> c, cols |-> Vacant(c), lsf |-> <<>>, spectra |-> <<>>, live |-> "no"]
InitSt == New(Cfg0)

\* ------------------------------------------------------------ initialisation
Order(s) == [i \in DOMAIN s.cols["wave"] |-> s.cols["wave"][i].obs]
Sizes(s) == {Len(s.cols[c]) : c \in DOMAIN s.cols}
SameObs(s) == \A c \in DOMAIN s.cols : Loaded(s.cols["wave"]) \subseteq Loaded(s.cols[c])
SameLengths(s) == \A c \in DOMAIN s.cols, o \in Loaded(s.cols["wave"]) :
                     Len(Cell(s.cols[c], o)) = Len(Cell(s.cols["wave"], o))
Rows(s, o) == [i \in DOMAIN Cell(s.cols["wave"], o) |-> [c \in DOMAIN s.cols |-> Cell(s.cols[c], o)[i]]]
\* as the filters see them
AsTable(r) == [k \in {"waves", "fluxes", "errors"} \cup (DOMAIN r \ Range1(Main)) |->
                CASE k = "waves" -> 2 * (4000 + 10 * r.wave) [] k = "fluxes" -> 2 * r.flux
                  [] k = "errors" -> 2 * r.err [] OTHER -> 2 * r[k]]
Known(s) == {"waves", "fluxes", "errors"} \cup Range1(s.cfg.others)
BadKey(s) == \E i \in DOMAIN s.cfg.filters : F!Column(s.cfg.filters[i].key) \notin Known(s)
BadInstr(s) == \E i \in DOMAIN s.cfg.filters : s.cfg.filters[i].instruction \notin F!Instr
Ok(s, r) == \A i \in DOMAIN s.cfg.filters :
              LET f == s.cfg.filters[i] IN F!Accepts(AsTable(r)[F!Column(f.key)], f.instruction, f.value)
Kept(s, o) == SelectSeq(Rows(s, o), LAMBDA r : Ok(s, r))
Rising(t) == \A i \in 1..(Len(t) - 1) : t[i].wave < t[i + 1].wave

RangeOf(s, o) == IF s.cfg.multi = "full" THEN s.cfg.ranges[o] ELSE s.cfg.range
Tight(s, o) == LET w == Cell(s.cols["wave"], o) IN ~(w[1] <= RangeOf(s, o)[1] /\ w[Len(w)] >= RangeOf(s, o)[2])

Expected(s) == IF s.cfg.multi = "full" THEN DOMAIN s.cfg.ranges ELSE {""}
Fold(s) == FlattenSeq([i \in DOMAIN Order(s) |-> Kept(s, Order(s)[i])])
Spectra(s) == CASE s.cfg.multi = "" -> <<[obs |-> "", rows |-> Kept(s, "")]>>
                [] s.cfg.multi = "merge" -> <<[obs |-> "", rows |-> Fold(s)]>>
                [] OTHER -> [i \in DOMAIN Order(s) |-> [obs |-> Order(s)[i], rows |-> Kept(s, Order(s)[i])]]
LsfWidth(s) == IF s.cfg.lsf = "param" THEN 2 ELSE s.lsf[1].v

Conversions == {"edlen1953", "edlen1966", "peckreeder1972", "ciddor1996", "morton2000"}
Applied(s) == IF s.cfg.frame = "vacuum" THEN "" ELSE IF s.cfg.air \in {"", "default"} THEN "morton2000" ELSE s.cfg.air
Warned(s) ==
  FlattenSeq([i \in DOMAIN Order(s) |-> IF Tight(s, Order(s)[i]) THEN <<"SPECTRUM_WAVELENGTH_TIGHTER_THAN_PARAM">> ELSE <<>>])
  \o (IF s.cfg.air # "" /\ s.cfg.frame = "vacuum" THEN <<"AIR_VACUUM_CONVERSION_IGNORED">> ELSE <<>>)
  \o (IF s.cfg.lsf = "spectrum" /\ Len(s.lsf) > 1 THEN <<"MULTI_OBS_ARBITRARY_LSF">> ELSE <<>>)

\* the outcome of init: "ok", an error code, or "refused" (any error)
Outcome(s) ==
  CASE Cardinality(Sizes(s)) # 1 -> "INVALID_SPECTRUM"
    [] ~SameObs(s) -> "INVALID_SPECTRUM"
    [] ~SameLengths(s) -> "refused"
    [] BadInstr(s) -> "INVALID_FILTER_INSTRUCTION"
    [] Order(s) # <<>> /\ BadKey(s) -> "INVALID_FILTER_KEY"
    [] s.cfg.multi = "full" /\ ~(Range1(Order(s)) \subseteq DOMAIN s.cfg.ranges) -> "refused"
    [] \E i \in DOMAIN Order(s) : Rows(s, Order(s)[i]) = <<>> -> "INVALID_SPECTRUM"
    [] s.cfg.multi = "" /\ Order(s) # <<"">> -> "INVALID_NAME"
    [] Order(s) = <<>> -> "refused"
    [] s.cfg.multi = "merge" /\ Fold(s) = <<>> -> "refused"
    [] s.cfg.multi # "merge" /\ \E i \in DOMAIN Spectra(s) : Spectra(s)[i].rows = <<>> -> "refused"
    [] Applied(s) \notin Conversions \cup {""} -> "UNKNOWN_AIR_VACUUM_CONVERSION"
    [] s.cfg.multi # "merge" /\ \E i \in DOMAIN Spectra(s) : ~Rising(Spectra(s)[i].rows) -> "INVALID_SPECTRUM"
    [] s.cfg.lsf = "spectrum" /\ s.lsf = <<>> -> "LSF_NOT_LOADED"
    [] ~(Expected(s) \subseteq {Spectra(s)[i].obs : i \in DOMAIN Spectra(s)}) -> "refused"
    [] OTHER -> "ok"

OthersOf(s) == [i \in DOMAIN Order(s) |-> [obs |-> Order(s)[i], rows |-> Kept(s, Order(s)[i])]]
View(s) == [spectra |-> Spectra(s), others |-> OthersOf(s), lsf |-> LsfWidth(s),
            air |-> Applied(s) # "", lsfobs |-> [i \in DOMAIN s.lsf |-> s.lsf[i].obs],
            obs |-> Order(s)]

Ret(r) == [ret |-> r]
Apply(s, o) ==
  CASE o.a = "new" -> R(New(o.cfg), Ret("ok"))
    [] o.a = "load" -> R([s EXCEPT !.cols[o.col] = Store(@, o.obs, o.v)], Ret("ok"))
    [] o.a = "lsf" -> R([s EXCEPT !.lsf = Store(@, o.obs, o.v)], Ret("ok"))
    [] o.a = "init" ->
         IF Outcome(s) = "ok" THEN R([s EXCEPT !.live = "yes", !.spectra = View(s)],
                                     [ret |-> "ok", warn |-> Warned(s), view |-> View(s)])
         ELSE R([s EXCEPT !.live = IF s.live = "yes" THEN "?" ELSE "failed"], [ret |-> Outcome(s)])
    [] o.a = "read" -> \* before initialisation nothing can be read
         R(s, IF s.live = "no" THEN Ret("SPECTRUM_NOT_LOADED")
              ELSE IF s.live = "yes" THEN [ret |-> "ok", view |-> s.spectra] ELSE Ret("any"))

Bag(q) == [r \in Range1(q) |-> Cardinality({i \in DOMAIN q : q[i] = r})]
Cut(rows) == [i \in DOMAIN rows |-> [c \in Range1(Main) |-> rows[i][c]]]
Extra(rows) == [i \in DOMAIN rows |-> [c \in DOMAIN rows[i] \ Range1(Main) |-> rows[i][c]]]
SameSpectrum(e, b) ==
  /\ e.obs = b.obs /\ b.sorted
  /\ \/ Cut(e.rows) = Cut(b.rows)
     \/ Bag(Cut(e.rows)) = Bag(Cut(b.rows)) /\ \A i \in 1..(Len(b.rows) - 1) : b.rows[i].wave <= b.rows[i + 1].wave
MatchView(e, b) ==
  /\ Len(e.spectra) = Len(b.spectra)
  /\ \A i \in DOMAIN e.spectra : SameSpectrum(e.spectra[i], b.spectra[i])
  /\ Len(e.others) = Len(b.others)
  /\ \A i \in DOMAIN e.others : e.others[i].obs = b.others[i].obs /\
        (IF e.others[i].rows # <<>> /\ Extra(e.others[i].rows)[1] = EmptyFn THEN TRUE
         ELSE Extra(e.others[i].rows) = b.others[i].rows)
  /\ \A i \in DOMAIN b.spectra : b.spectra[i].lsf = e.lsf
  /\ \A i \in DOMAIN b.spectra : b.spectra[i].air = e.air /\ b.spectra[i].name = "src"
  /\ e.lsfobs = b.lsfobs /\ e.obs = b.obslist
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ CASE e.ret = "any" -> TRUE
       [] e.ret = "refused" -> b.ret # "ok"
       [] OTHER -> e.ret = b.ret
  /\ "warn" \in DOMAIN e => Bag(e.warn) = Bag(b.warn)
  /\ "ids" \in DOMAIN b => b.ids = [i \in DOMAIN e.view.spectra |-> e.view.spectra[i].obs]
  /\ "view" \in DOMAIN e => MatchView(e.view, b.view)

Inv(s) == TRUE
\* every kept sample of every observation is handed over exactly once
StepOK(s, o, r) ==
  /\ o.a = "read" => r.st = s
  /\ (o.a = "init" /\ r.obs.ret = "ok") =>
       LET v == r.obs.view IN
       Bag(FlattenSeq([i \in DOMAIN v.spectra |-> v.spectra[i].rows])) =
         Bag(FlattenSeq([i \in DOMAIN Order(s) |-> Kept(s, Order(s)[i])]))

Fl(k, i, v) == [key |-> k, instruction |-> i, value |-> v]
FilterSets == {<<>>, <<Fl("Wave", ">=", 8020)>>, <<Fl("Err", "<", 5), Fl("Flux", "!=", 6)>>, <<Fl("nope", "<", 2)>>, <<Fl("Err", "~<", 2)>>}
Cfgs == {[Cfg0 EXCEPT !.multi = m, !.filters = f, !.ranges = [x \in {"", "a"} |-> <<1, 2>>]] :
           m \in {"", "merge", "full"}, f \in FilterSets}
Vals(c) == CASE c = "wave" -> {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<>>} [] c = "flux" -> {<<3, 4>>, <<3>>} [] OTHER -> {<<1, 2>>}
\* columns are loaded in any order, each at most once, for two observations
Ops(s) ==
  IF s = InitSt THEN {[a |-> "new", cfg |-> c] : c \in Cfgs}
  ELSE IF s.live # "no" THEN {[a |-> "read"]}
  ELSE {o \in UNION {[a : {"load"}, col : {c}, obs : {"", "a"}, v : Vals(c)] : c \in DOMAIN s.cols} :
           o.obs \notin Loaded(s.cols[o.col]) /\ (o.obs = "a" => o.v \in {<<1, 2>>, <<3, 4>>, <<2, 1>>})}
       \cup {[a |-> "init"], [a |-> "read"]}
SimOps(s) == Ops(s)
=============================================================================
