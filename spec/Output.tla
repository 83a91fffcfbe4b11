-------------------------------- MODULE Output --------------------------------
(* What a run reports (AbstractOutput, ResultStoreOutput, H5Writer): a table *)
(* of result rows says, for each reported attribute, in which dataset and at *)
(* which level it appears and where its value is stored; the results and     *)
(* errors of one spectrum are loaded according to it and written as HDF5.    *)
(*   row: n name (pre: its model/method/band/observation prefix), ds dataset *)
(*        (obs: one per observation), x extended result only, l level, path  *)
(*        attribute of the stored object (hook: entry of a per-model, -band  *)
(*        or -observation map), key of the stored object, fp first pass      *)
(*   value: k kind, v its text, item by item                                 *)
EXTENDS Base
CONSTANTS Worlds

Scalar == {"f", "i", "s"}
NoVal == [k |-> "none", v |-> <<>>]
Shown(v) == IF v.k \in Scalar \/ Len(v.v) > 0 THEN v ELSE [k |-> "E", v |-> <<>>]
Method(rs) == CASE rs \in {"lm", "lmtpl"} -> "lineModelSolve" [] rs = "tf" -> "templateFittingSolve"
                [] rs = "tc" -> "tplCombinationSolve" [] OTHER -> ""
Solvers(c) == (IF c.rs = "" THEN <<>> ELSE << <<"redshiftSolver", Method(c.rs)>> >>)
              \o (IF c.lm THEN << <<"lineMeasSolver", "lineMeasSolve">> >> ELSE <<>>)
Prefix(p) == CASE p = "obj" -> "<ObjectType>" [] p = "method" -> "<MethodType>" [] p = "band" -> "<BandName>"
               [] p = "obs" -> "<ObsID>" [] OTHER -> ""
RowName(r) == Prefix(r.pre) \o r.n
Model(s, m) == CHOOSE c \in Range1(s.cfg.models) : c.name = m
Models(s) == {c.name : c \in Range1(s.cfg.models)}
Rows(s) == Range1(s.cfg.rows)
Obs(s) == Range1(s.cfg.obs)

(* ------------------------------- the store -------------------------------- *)
FlagKeys == {"init_warningFlag", "context_warningFlag", "warningFlag"}
Nowhere == [ok |-> FALSE, attrs |-> <<>>]
There(a) == [ok |-> TRUE, attrs |-> a]
ByKey(s, k) == IF k \in DOMAIN s.glob THEN There(s.glob[k].attrs) ELSE Nowhere
HasCand(s, m, method, key, ds) ==
  LET k == <<m, "redshiftSolver", method, key>>
  IN  k \in DOMAIN s.cand /\ \E i \in DOMAIN s.cand[k].sets : s.cand[k].sets[i].ds = ds
Source(s, r, m, stage, method, rank) ==
  IF r.key = "" THEN Nowhere
  ELSE CASE r.l = "root" ->
         IF r.key \in FlagKeys
         THEN LET d == IF r.ds = "classification" THEN r.ds ELSE "" IN ByKey(s, <<d, d, d, r.key>>)
         ELSE LET k == <<r.ds, r.ds, r.ds, r.key>>
              IN  IF k \in DOMAIN s.glob /\ s.glob[k].type = "CClassificationResult" THEN ByKey(s, k) ELSE Nowhere
    [] r.l \in {"object", "method"} -> ByKey(s, <<m, stage, method, r.key>>)
    [] OTHER ->
         IF ~HasCand(s, m, method, r.key, r.ds) THEN Nowhere
         ELSE LET c == s.cand[<<m, "redshiftSolver", method, r.key>>]
                  d == c.sets[CHOOSE i \in DOMAIN c.sets : c.sets[i].ds = r.ds]
              IN  IF rank < 0 \/ rank >= c.n THEN Nowhere
                  ELSE There(IF r.fp /\ d.type = "TLineModelResult" THEN d.fp[rank + 1] ELSE d.ranks[rank + 1])

At(attrs, p) == {i \in DOMAIN attrs : attrs[i].p = p}
\* the value of a row: entry h of a map, or the attribute itself
Value(s, r, m, stage, method, rank, h) ==
  LET src == Source(s, r, m, stage, method, rank)
      is == IF src.ok THEN At(src.attrs, r.path) ELSE {}
  IN  IF is = {} THEN NoVal
      ELSE LET a == src.attrs[CHOOSE i \in is : TRUE]
           IN  IF r.hook = "" THEN Shown(a.v)
               ELSE LET es == {e \in Range1(a.map) : e.n = h}
                    IN  IF es = {} THEN NoVal ELSE Shown((CHOOSE e \in es : TRUE).v)
Found(v) == v.k # "none"

(* -------------------------------- loading --------------------------------- *)
\* the datasets of a level that have something to report
Sets(s, l) == {[ds |-> r.ds, obs |-> r.obs] : r \in {r \in Rows(s) : r.l = l /\ (s.cfg.ext \/ ~r.x)}}
RowsOf(s, d, dropfirst) ==
  {r \in Rows(s) : r.ds = d.ds /\ r.obs = d.obs /\ (s.cfg.ext \/ ~r.x) /\ ~(dropfirst /\ r.fp)}
\* the function of a set of [n, v] pairs, reported ones only
Dict(pairs) == LET P == {p \in pairs : Found(p.v)}
               IN  [n \in {p.n : p \in P} |-> (CHOOSE p \in P : p.n = n).v]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

RootThere(s, d) ==
  IF d = "classification" THEN <<d, d, d, "solveResult">> \in DOMAIN s.glob ELSE <<"", "", "", d>> \in DOMAIN s.glob
LoadRoot(s) ==
  LET ds == {d.ds : d \in {d \in Sets(s, "root") : RootThere(s, d.ds)}}
      one(d) == Dict({[n |-> r.n, v |-> Value(s, r, "", "", "", -1, "")] :
                        r \in {r \in RowsOf(s, [ds |-> d, obs |-> FALSE], FALSE) : r.pre = ""}}
                     \cup {[n |-> c \o r.n, v |-> Value(s, r, c, "", "", -1, c)] :
                        r \in {r \in RowsOf(s, [ds |-> d, obs |-> FALSE], FALSE) : r.pre = "obj"}, c \in Models(s)})
  IN  Over(s.root, [d \in ds |-> one(d)])

D(f) == [l |-> "d", d |-> f, c |-> <<>>]
C(q) == [l |-> "c", d |-> EmptyFn, c |-> q]
Ids(s, d) == IF d.obs THEN Obs(s) ELSE {""}
\* one solver's contribution to the object-level datasets
LoadObject1(s, m, sv) ==
  LET here == {d \in Sets(s, "object") : <<m, sv[1], sv[2], d.ds>> \in DOMAIN s.glob}
      all == {[n |-> d.ds \o i, ds |-> d, i |-> i] : d \in here, i \in UNION {Ids(s, d) : d \in here}}
      ok == {x \in all : x.i \in Ids(s, x.ds)}
  IN  [n \in {x.n : x \in ok} |->
        LET x == CHOOSE x \in ok : x.n = n
        IN  D(Dict({[n |-> RowName(r), v |-> Value(s, r, m, sv[1], sv[2], -1, x.i)] : r \in RowsOf(s, x.ds, FALSE)}))]
LoadObject(s, m) ==
  FoldLeft(LAMBDA f, sv : Over(f, LoadObject1(s, m, sv)), s.obj[m], Solvers(Model(s, m)))
LoadMethod(s, m, f) ==
  LET one(d, sv) == IF <<m, sv[1], sv[2], d.ds>> \in DOMAIN s.glob
                    THEN Dict({[n |-> (IF r.pre = "method" THEN sv[2] ELSE Prefix(r.pre)) \o r.n,
                                v |-> Value(s, r, m, sv[1], sv[2], -1, "")] : r \in RowsOf(s, d, FALSE)})
                    ELSE EmptyFn
  IN  Over(f, [n \in {d.ds : d \in Sets(s, "method")} |->
                D(FoldLeft(LAMBDA g, sv : Over(g, one([ds |-> n, obs |-> FALSE], sv)), EmptyFn, Solvers(Model(s, m))))])
LoadCandidates(s, m, f) ==
  LET c == Model(s, m)
      method == Method(c.rs)
      key(d) == (s.cfg.rows[CHOOSE i \in DOMAIN s.cfg.rows :
                   /\ s.cfg.rows[i].ds = d.ds /\ s.cfg.rows[i].obs = d.obs
                   /\ \A j \in 1..(i - 1) : ~(s.cfg.rows[j].ds = d.ds /\ s.cfg.rows[j].obs = d.obs)]).key
      here == {d \in Sets(s, "candidate") : HasCand(s, m, method, key(d), d.ds)}
      nb == s.cand[<<m, "redshiftSolver", method, "extrema_results">>].n
      all == {[n |-> d.ds \o i, ds |-> d, i |-> i] : d \in here, i \in UNION {Ids(s, d) : d \in here}}
      ok == {x \in all : x.i \in Ids(s, x.ds)}
      pairs(r, rank, i) ==
        CASE r.pre = "band" -> {[n |-> b, v |-> Value(s, r, m, "redshiftSolver", method, rank, b)] : b \in Range1(s.cfg.bands)}
          [] r.pre = "obs" -> {[n |-> o \o r.n, v |-> Value(s, r, m, "redshiftSolver", method, rank, o)] : o \in Obs(s)}
          [] OTHER -> {[n |-> r.n, v |-> Value(s, r, m, "redshiftSolver", method, rank, i)]}
      rowset(d) == RowsOf(s, d, c.skip \/ method # "lineModelSolve")
      dict(x, rank) == Dict(UNION {pairs(r, rank, x.i) : r \in rowset(x.ds)})
      had(n) == IF n \in DOMAIN f /\ f[n].l = "c" /\ Len(f[n].c) > 0 THEN f[n].c ELSE [i \in 1..nb |-> EmptyFn]
  IN  IF c.rs = "" THEN f
      ELSE Over(f, [n \in {x.n : x \in ok} |->
             LET x == CHOOSE x \in ok : x.n = n IN C([i \in 1..nb |-> Over(had(n)[i], dict(x, i - 1))])])
LoadModel(s, m) == LoadCandidates(s, m, LoadMethod(s, m, LoadObject(s, m)))

(* --------------------------------- errors --------------------------------- *)
Deps(stage) == CASE stage = "redshiftSolver" -> {"lineMeasSolver", "reliabilitySolver", "subClassifSolver"}
                 [] stage = "linemeas_catalog_load" -> {"lineMeasSolver"} [] OTHER -> {}
ModelStages == {"redshiftSolver", "linemeas_catalog_load", "lineMeasSolver", "reliabilitySolver", "subClassifSolver"}
RootStages == {"init", "classification", "load_result_store"}
Enabled(c, st) == CASE st = "redshiftSolver" -> c.rs # "" [] st = "lineMeasSolver" -> c.lm
                    [] st = "linemeas_catalog_load" -> c.lm /\ c.rs = "" [] st = "reliabilitySolver" -> c.rel
                    [] OTHER -> c.rs = "lmtpl"
ErrName(m, st) == IF m = "" THEN st ELSE st \o "_" \o m
HasErr(s, m, st) == ErrName(m, st) \in DOMAIN s.errs
Because(st) == [code |-> "STAGE_NOT_RUN_BECAUSE_OF_PREVIOUS_FAILURE", message |-> "not run because " \o st \o " failed",
                line |-> -1, file |-> "", method |-> ""]
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Join(Tail(q))
ErrOf(o) == [code |-> o.code, message |-> o.message, line |-> o.line, method |-> o.method,
             file |-> Join(SubSeq(o.path, MaxI(1, Len(o.path) - 2), Len(o.path)))]
Blamed(s, m, st) ==
  IF m = "" THEN (IF st = "init" THEN {<<c.name, d>> : c \in Range1(s.cfg.models), d \in ModelStages} ELSE {})
  ELSE {<<m, d>> : d \in Deps(st)}
WithError(s, o) ==
  LET hit == {p \in Blamed(s, o.obj, o.stage) : Enabled(Model(s, p[1]), p[2])}
  IN  Over(Put(s.errs, ErrName(o.obj, o.stage), ErrOf(o)),
           [n \in {ErrName(p[1], p[2]) : p \in hit} |-> Because(o.stage)])

(* --------------------------- what can be asked of it ---------------------- *)
E(p, v) == [p |-> p, v |-> v]
Group == [k |-> "group", v |-> <<>>]
InDict(p, f) == {E(p \o "@" \o n, f[n]) : n \in DOMAIN f}
Lists(s, m) == {n \in DOMAIN s.obj[m] : s.obj[m][n].l = "c"}
Dicts(s, m) == {n \in DOMAIN s.obj[m] : s.obj[m][n].l = "d"}
Nb(s, m) == IF Lists(s, m) = {} THEN 0 ELSE Len(s.obj[m][CHOOSE n \in Lists(s, m) : TRUE].c)
Results(s) ==
  UNION {{E("/" \o d, Group)} \cup InDict("/" \o d, s.root[d]) : d \in DOMAIN s.root}
  \cup UNION {UNION {{E(m \o "/" \o d, Group)} \cup InDict(m \o "/" \o d, s.obj[m][d].d) : d \in Dicts(s, m)}
              \cup UNION {UNION {LET p == m \o "/" \o d \o "#" \o ToString(i - 1)
                                 IN  {E(p, Group)} \cup InDict(p, s.obj[m][d].c[i]) : i \in 1..Nb(s, m)} : d \in Lists(s, m)}
              : m \in Models(s)}
\* number of samples of a dataset
SizeOf(f) == IF DOMAIN f = {} THEN 0 ELSE Len(f[CHOOSE n \in DOMAIN f : TRUE].v)

Letter(i) == "candidate" \o <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J">>[i]
AsAttrs(p, f) == {E(p, Group)} \cup InDict(p, f)
AsTable(p, f) == {E(p \o ":" \o n, f[n]) : n \in DOMAIN f}
ErrEntries(p, st, e) ==
  LET q == p \o "/" \o st \o "_error"
      S(x) == [k |-> "s", v |-> <<x>>]
  IN  {E(q, Group), E(q \o "@code", S(e.code)), E(q \o "@message", S(e.message)), E(q \o "@filename", S(e.file)),
       E(q \o "@method", S(e.method)), E(q \o "@line", [k |-> "i", v |-> <<ToString(e.line)>>])}
Written(s, id) ==
  LET p == "/" \o id
      object(q, m, d) == IF SizeOf(s.obj[m][d].d) > 1 THEN AsTable(q \o "/" \o d, s.obj[m][d].d)
                         ELSE AsAttrs(q \o "/" \o d, s.obj[m][d].d)
      cand(q, m, i, d) == LET f == s.obj[m][d].c[i]
                          IN  CASE SizeOf(f) = 0 -> {} [] SizeOf(f) = 1 -> AsAttrs(q \o "/" \o d, f)
                                [] OTHER -> AsTable(q \o "/" \o d, f)
      cands(q, m) == IF Nb(s, m) > 0 /\ Model(s, m).rs # ""
                     THEN {E(q \o "/candidates", Group)}
                          \cup UNION {LET c == q \o "/candidates/" \o Letter(i)
                                      IN  {E(c, Group)} \cup UNION {cand(c, m, i, d) : d \in Lists(s, m)} : i \in 1..Nb(s, m)}
                     ELSE {}
      model(m) == LET q == p \o "/" \o m
                  IN  {E(q, Group)} \cup UNION {object(q, m, d) : d \in Dicts(s, m)} \cup cands(q, m)
                      \cup UNION {ErrEntries(q, st, s.errs[ErrName(m, st)]) : st \in {t \in ModelStages : HasErr(s, m, t)}}
  IN  {E(p, Group)} \cup UNION {AsAttrs(p \o "/" \o d, s.root[d]) : d \in DOMAIN s.root}
      \cup UNION {ErrEntries(p, st, s.errs[st]) : st \in {t \in RootStages : HasErr(s, "", t)}}
      \cup (IF HasErr(s, "", "init") THEN {} ELSE UNION {model(m) : m \in Models(s)})

\* asking for one attribute: [h yes, no or error; v]
Got(h, v) == [h |-> h, v |-> v]
AskLoaded(s, m, ds, n, rank) ==
  IF m = "" THEN IF ds \in DOMAIN s.root /\ n \in DOMAIN s.root[ds] THEN Got("yes", s.root[ds][n]) ELSE Got("no", NoVal)
  ELSE IF m \notin Models(s) \/ ds \notin DOMAIN s.obj[m] THEN Got("no", NoVal)
  ELSE LET x == s.obj[m][ds]
       IN  IF rank < 0 THEN IF x.l = "d" /\ n \in DOMAIN x.d THEN Got("yes", x.d[n]) ELSE Got("no", NoVal)
           ELSE IF x.l = "c" /\ rank < Len(x.c) /\ n \in DOMAIN x.c[rank + 1] THEN Got("yes", x.c[rank + 1][n])
           ELSE Got("no", NoVal)
\* before loading, the store itself is asked
AskStore(s, m, ds, n, rank) ==
  LET rs == {r \in Rows(s) : RowName(r) = n /\ r.ds = ds /\ ~r.obs}
      c == Model(s, m)
      sv == IF m = "" THEN <<"", "">> ELSE IF ds = "linemeas" THEN <<"lineMeasSolver", "lineMeasSolve">> ELSE <<"redshiftSolver", Method(c.rs)>>
  IN  IF rs = {} THEN Got("error", NoVal)
      ELSE LET v == Value(s, CHOOSE r \in rs : TRUE, m, sv[1], sv[2], rank, "") IN Got(IF Found(v) THEN "yes" ELSE "no", v)
Ask(s, m, ds, n, rank) == IF s.cache THEN AskLoaded(s, m, ds, n, rank) ELSE AskStore(s, m, ds, n, rank)

\* by name: [r ok, error; v]
Ok(v) == [r |-> "ok", v |-> v]
Fail == [r |-> "error", v |-> NoVal]
Need(g) == IF g.h = "yes" THEN Ok(g.v) ELSE Fail
StrV(x) == [k |-> "s", v |-> <<x>>]
ErrField(e, f) == CASE f = "code" -> Ok(StrV(e.code)) [] f = "message" -> Ok(StrV(e.message)) [] f = "filename" -> Ok(StrV(e.file))
                    [] f = "method" -> Ok(StrV(e.method)) [] f = "line" -> Ok([k |-> "i", v |-> <<ToString(e.line)>>]) [] OTHER -> Fail
Numerals == {"0", "1", "2", "3", "4"}
Num(x) == CHOOSE i \in 0..4 : ToString(i) = x
Short(s, q, lines) ==
  LET root == q[1]
      last == Last1(q)
      ranked == last \in Numerals /\ Len(q) > 1
      name == IF ranked THEN q[Len(q) - 1] ELSE last
      named == {i \in DOMAIN s.cfg.rows : RowName(s.cfg.rows[i]) = name}
      ds == LET r == s.cfg.rows[Min(named)] IN IF r.obs THEN r.ds \o "<ObsID>" ELSE r.ds
      rank == IF ranked THEN Num(last) ELSE IF ds = "model_parameters" THEN 0 ELSE -1
      byid(idx, val) == LET is == {i \in DOMAIN idx.v : idx.v[i] = (CHOOSE e \in Range1(lines) : e.n = q[2]).id}
                        IN  IF is = {} THEN Fail
                            ELSE Ok([k |-> (CASE val.k = "F" -> "f" [] val.k = "I" -> "i" [] OTHER -> "s"), v |-> <<val.v[Min(is)]>>])
  IN  IF root = "classification" THEN Need(AskLoaded(s, "", "classification", last, -1))
      ELSE IF root = "error" THEN
        IF HasErr(s, q[2], q[3]) THEN IF Len(q) < 4 THEN Fail ELSE ErrField(s.errs[ErrName(q[2], q[3])], q[4])
        ELSE IF HasErr(s, "", q[2]) THEN ErrField(s.errs[q[2]], q[3])
        ELSE Ok(NoVal)
      ELSE IF root = "ContextWarningFlags" THEN Need(AskLoaded(s, "", "context_warningFlag", root, -1))
      ELSE IF root = "InitWarningFlags" THEN Need(AskLoaded(s, "", "init_warningFlag", root, -1))
      ELSE IF last \in {"WarningFlags"} \cup {Method(x) \o "WarningFlags" : x \in {"lm", "tf", "tc"}} \cup {"lineMeasSolveWarningFlags"}
      THEN Need(AskLoaded(s, root, "warningFlag", last, -1))
      ELSE IF named = {} THEN Fail
      ELSE IF ds \in {"linemeas", "fitted_lines"} THEN
        IF q[2] \notin {e.n : e \in Range1(lines)} THEN Fail
        ELSE LET val == AskLoaded(s, root, ds, name, rank)
                 idx == AskLoaded(s, root, ds, IF ds = "linemeas" THEN "LinemeasLineID" ELSE "FittedLineID", rank)
             IN  IF val.h # "yes" \/ idx.h # "yes" THEN Fail ELSE byid(idx.v, val.v)
      ELSE Ok(AskLoaded(s, root, ds, name, rank).v)

(* ------------------------------- operations ------------------------------- *)
NoCfg == [models |-> <<>>, obs |-> <<"">>, bands |-> <<>>, ext |-> TRUE, rows |-> <<>>]
InitSt == [cfg |-> NoCfg, glob |-> EmptyFn, cand |-> EmptyFn, root |-> EmptyFn, obj |-> EmptyFn, errs |-> EmptyFn,
           cache |-> FALSE]
ErrList(s) == {[n |-> n, code |-> s.errs[n].code, message |-> s.errs[n].message, line |-> s.errs[n].line,
                file |-> s.errs[n].file, method |-> s.errs[n].method] : n \in DOMAIN s.errs}
RanksOf(q) == [i \in 1..Len(q) |-> q[i]]
Done == [ret |-> "ok"]

Apply(s, o) ==
  CASE o.a = "new" ->
         R([InitSt EXCEPT !.cfg = [models |-> o.models, obs |-> o.obs, bands |-> o.bands, ext |-> o.ext, rows |-> o.rows],
                          !.obj = [m \in {o.models[i].name : i \in DOMAIN o.models} |-> EmptyFn]], Done)
    [] o.a = "put" -> R([s EXCEPT !.glob = Put(@, <<o.obj, o.stage, o.method, o.key>>, [type |-> o.type, attrs |-> o.attrs])], Done)
    [] o.a = "cand" ->
         LET k == <<o.obj, "redshiftSolver", o.method, "extrema_results">>
         IN  R([s EXCEPT !.glob = Put(@, k, [type |-> "TExtrema", attrs |-> <<>>]),
                         !.cand = Put(@, k, [n |-> o.n, sets |-> o.sets])], Done)
    [] o.a = "side" ->
         LET a == IF Len(o.sub) = 0 THEN s.obj
                  ELSE [s.obj EXCEPT ![o.obj] = Put(@, "model_parameters", C([i \in 1..Len(o.sub) |-> ("SubType" :> StrV(o.sub[i]))]))]
             b == IF o.rel = "" THEN a
                  ELSE [a EXCEPT ![o.obj] = Put(@, "reliability", D("Reliability" :> StrV(o.rel)))]
         IN  R([s EXCEPT !.obj = b], Done)
    [] o.a = "error" ->
         LET t == [s EXCEPT !.errs = WithError(s, o)] IN R(t, [ret |-> "ok", errors |-> ErrList(t)])
    [] o.a = "root" -> LET t == [s EXCEPT !.root = LoadRoot(s)] IN R(t, [ret |-> "ok", res |-> Results(t)])
    [] o.a = "load" ->
         LET t == [s EXCEPT !.root = LoadRoot(s)]
             u == IF HasErr(s, "", "init") THEN t
                  ELSE [t EXCEPT !.obj = [m \in Models(s) |-> LoadModel(s, m)], !.cache = TRUE]
         IN  R(u, [ret |-> "ok", res |-> Results(u)])
    [] o.a = "write" -> R(s, [ret |-> "ok", h5 |-> Written(s, o.id)])
    [] o.a = "get" ->
         LET g == Ask(s, o.obj, o.ds, o.n, o.rank)
         IN  R(s, [ret |-> IF g.h = "yes" THEN "ok" ELSE "error", has |-> g.h, v |-> g.v])
    [] o.a = "short" -> LET g == Short(s, o.parts, o.lines) IN R(s, [ret |-> g.r, v |-> g.v])
    [] o.a = "several" ->
         LET g(i) == Short(s, o.names[i], o.lines)
             got == {i \in DOMAIN o.names : ~o.pdf[i] /\ g(i).r = "ok" /\ Found(g(i).v)}
         IN  R(s, [ret |-> "ok", got |-> {E("ProcessingID", StrV(o.id))} \cup {E(o.flat[i], g(i).v) : i \in got}])
    [] o.a = "query" ->
         LET m == o.obj
             x == s.obj[m][o.ds]
             size == IF m \notin Models(s) \/ o.ds \notin DOMAIN s.obj[m] THEN -1
                     ELSE IF o.rank < 0 THEN (IF x.l = "d" THEN SizeOf(x.d) ELSE IF Len(x.c) = 0 THEN 0 ELSE -1)
                     ELSE IF x.l = "c" /\ o.rank < Len(x.c) THEN SizeOf(x.c[o.rank + 1]) ELSE -1
         IN  IF m \notin Models(s) THEN R(s, [ret |-> "error", size |-> -1])
             ELSE R(s, [ret |-> "ok", size |-> size, objects |-> Dicts(s, m), candidates |-> Lists(s, m), root |-> DOMAIN s.root,
                        nb |-> Nb(s, m), has |-> IF o.ds \in DOMAIN s.obj[m] THEN "yes" ELSE "no"])

SetKeys == {"errors", "res", "h5", "got", "objects", "candidates", "root"}
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ \A k \in DOMAIN e :
       /\ k \in DOMAIN b
       /\ IF k \in SetKeys THEN Range1(b[k]) = e[k] /\ Len(b[k]) = Cardinality(e[k]) ELSE b[k] = e[k]

(* -------------------------------- properties ------------------------------ *)
Stored(s, m) == UNION {UNION {{a.v} \cup {e.v : e \in Range1(a.map)} : a \in Range1(s.glob[k].attrs)} : k \in {k \in DOMAIN s.glob : k[1] = m}}
                \cup UNION {UNION {UNION {UNION {{a.v} \cup {e.v : e \in Range1(a.map)} : a \in Range1(q)} : q \in Range1(d.ranks) \cup Range1(d.fp)}
                                   : d \in Range1(s.cand[k].sets)} : k \in {k \in DOMAIN s.cand : k[1] = m}}
Loaded(s, m) == UNION {{s.obj[m][d].d[n] : n \in DOMAIN s.obj[m][d].d} : d \in Dicts(s, m)}
                \cup UNION {UNION {{s.obj[m][d].c[i][n] : n \in DOMAIN s.obj[m][d].c[i]} : i \in DOMAIN s.obj[m][d].c} : d \in Lists(s, m)}
Inv(s) ==
  \* a model only reports what was computed for it (the side stages apart)
  /\ \A m \in Models(s) : \A v \in Loaded(s, m) : v.k = "E" \/ v.v \in {<<"sub0">>, <<"sub1">>, <<"sub2">>, <<"sub3">>, <<"rel">>} \/ v \in Stored(s, m)
  \* a stage that could not run because of a failed one is reported as well
  /\ \A m \in Models(s) : HasErr(s, m, "redshiftSolver") =>
       \A d \in Deps("redshiftSolver") : Enabled(Model(s, m), d) => HasErr(s, m, d)
  /\ HasErr(s, "", "init") => \A m \in Models(s) : \A d \in ModelStages : Enabled(Model(s, m), d) => HasErr(s, m, d)
StepOK(s, o, r) ==
  /\ o.a = "write" =>
       /\ r.st = s
       \* every loaded attribute and every error is in the file, unless the initialisation failed
       /\ ~HasErr(s, "", "init") =>
            \A m \in Models(s) :
              /\ \A d \in Dicts(s, m) : \A n \in DOMAIN s.obj[m][d].d :
                   \E e \in r.obs.h5 : e.v = s.obj[m][d].d[n]
                     /\ e.p \in {"/" \o o.id \o "/" \o m \o "/" \o d \o sep \o n : sep \in {"@", ":"}}
              /\ \A st \in ModelStages : HasErr(s, m, st) <=>
                   E("/" \o o.id \o "/" \o m \o "/" \o st \o "_error", Group) \in r.obs.h5
       /\ \A st \in RootStages : HasErr(s, "", st) <=> E("/" \o o.id \o "/" \o st \o "_error", Group) \in r.obs.h5
  \* without extended results, none is reported
  /\ (o.a = "load" /\ ~s.cfg.ext) => ~\E e \in r.obs.res : \E x \in Rows(s) : x.x /\ x.pre = "" /\
       (\E m \in Models(s) : e.p = m \o "/" \o x.ds \o "@" \o x.n /\ ~\E y \in Rows(s) : ~y.x /\ y.n = x.n)
  /\ o.a \in {"get", "short", "several", "query"} => r.st = s

(* a small world for exploration *)
Row(n, pre, ds, obs, x, l, path, hook, key) ==
  [n |-> n, pre |-> pre, ds |-> ds, obs |-> obs, x |-> x, l |-> l, path |-> path, hook |-> hook, key |-> key, fp |-> FALSE]
SmallRows == <<Row("Redshift", "", "model_parameters", FALSE, FALSE, "candidate", "Redshift", "", "extrema_results"),
               Row("SNR", "", "model_parameters", FALSE, TRUE, "candidate", "a.b", "", "extrema_results"),
               Row("Flux", "", "model", TRUE, FALSE, "candidate", "F", "obs", "extrema_results"),
               Row("Proba", "obj", "classification", FALSE, FALSE, "root", "p", "obj", "solveResult"),
               Row("Pdf", "", "pdf", FALSE, FALSE, "object", "v", "", "pdf"),
               Row("FPdf", "", "fpdf", FALSE, TRUE, "object", "v", "", "pdf"),
               Row("WarningFlags", "method", "warningFlag", FALSE, FALSE, "method", "flag", "", "warningFlag")>>
At1(p, v) == [p |-> p, m |-> "", v |-> v, map |-> <<>>]
AtM(p, q) == [p |-> p, m |-> "map", v |-> NoVal, map |-> q]
MC(n, rs, lm) == [name |-> n, rs |-> rs, lm |-> lm, skip |-> FALSE, rel |-> TRUE]
World == [g |-> MC("g", "lmtpl", TRUE), q |-> MC("q", "tf", FALSE), r |-> MC("r", "", TRUE)]
I(x) == [k |-> "s", v |-> <<x>>]
No(m) == CASE m = "g" -> "11" [] m = "q" -> "22" [] OTHER -> "33"
F(x) == [k |-> "F", v |-> x]
Cands(m, method, n) ==
  [a |-> "cand", obj |-> m, method |-> method, n |-> n,
   sets |-> <<[ds |-> "model_parameters", type |-> "TLineModelResult", fp |-> [i \in 1..n |-> <<>>],
               ranks |-> [i \in 1..n |-> <<At1("Redshift", I(m \o ToString(i))), At1("a.b", I(m \o "x"))>>]],
              [ds |-> "model", type |-> "CModelSpectrumResult", fp |-> [i \in 1..n |-> <<>>],
               ranks |-> [i \in 1..n |-> <<AtM("F", <<[n |-> "A", v |-> F(<<No(m), "1">>)]>>)>>]]>>]
Global(m, st, method, key, type, attrs) ==
  [a |-> "put", obj |-> m, stage |-> st, method |-> method, key |-> key, type |-> type, attrs |-> attrs]
Flag(m, sv) == Global(m, sv[1], sv[2], "warningFlag", "CFlagLogResult", <<At1("flag", I(m \o sv[2]))>>)
Err(m, st) == [a |-> "error", obj |-> m, stage |-> st, code |-> "INTERNAL_ERROR", message |-> "x", line |-> 3, path |-> <<"f">>, method |-> "g"]
SmallOps(s) ==
  {[a |-> "write", id |-> "id"], [a |-> "load"], Err("", "init"), Err("", "classification")}
  \cup UNION {LET c == Model(s, m) IN
        {Flag(m, sv) : sv \in Range1(Solvers(c))} \cup {Err(m, st) : st \in ModelStages}
        \cup (IF c.rs = "" THEN {}
              ELSE {Cands(m, Method(c.rs), 2), Global(m, "redshiftSolver", Method(c.rs), "pdf", "CLogZPdfResult", <<At1("v", F(<<No(m), "2">>))>>),
                    [a |-> "get", obj |-> m, ds |-> "model_parameters", n |-> "Redshift", rank |-> 1]})
        : m \in Models(s)}
  \cup {Global("classification", "classification", "classification", "solveResult", "CClassificationResult",
               <<AtM("p", <<[n |-> "g", v |-> [k |-> "f", v |-> <<"5">>]], [n |-> "q", v |-> [k |-> "f", v |-> <<"6">>]]>>)>>)}
Ops(s) ==
  IF s.cfg.models = <<>>
  THEN {[a |-> "new", models |-> [i \in DOMAIN w |-> World[w[i]]], obs |-> <<"A", "B">>, bands |-> <<>>, ext |-> x, real |-> FALSE, rows |-> SmallRows] :
          w \in Worlds, x \in BOOLEAN}
  ELSE {o \in SmallOps(s) : (o.a = "put" => <<o.obj, o.stage, o.method, o.key>> \notin DOMAIN s.glob) /\ (o.a = "cand" => s.cand = EmptyFn)
                            /\ (o.a = "error" => Cardinality(DOMAIN s.errs) < 3)}
SimOps(s) == Ops(s)
===============================================================================
