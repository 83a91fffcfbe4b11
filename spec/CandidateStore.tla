--------------------------- MODULE CandidateStore ---------------------------
(* Results holding ranked redshift candidates, each with several datasets,  *)
(* stored under (model, stage, method) and read by rank and dataset name.   *)
EXTENDS Base
CONSTANTS Models, Methods, MaxCand, MaxPut

Kinds == {"ExtremaResult", "LineModelExtremaResult",
          "TplCombinationExtremaResult", "PdfCandidatesZResult"}
Datasets == {"model_parameters", "line_mask", "continuum_polynom", "model",
             "continuum", "PhotometricModel", "fitted_lines", "fp_fitted_lines",
             "modeltplCombination_parameters", "nonsense"}

\* which dataset of which kind shows which part of a candidate
PartOf(kind, ds) ==
  CASE kind = "PdfCandidatesZResult" -> "none"
    [] ds = "model_parameters" -> "params"
    [] ds \in {"line_mask", "continuum_polynom"} /\ kind = "LineModelExtremaResult" -> "params"
    [] ds = "modeltplCombination_parameters" /\ kind = "TplCombinationExtremaResult" -> "params"
    [] ds = "model" -> "model"
    [] ds = "continuum" /\ kind = "LineModelExtremaResult" -> "continuum"
    [] ds = "PhotometricModel" /\ kind \in {"ExtremaResult", "LineModelExtremaResult"} -> "phot"
    [] ds \in {"fitted_lines", "fp_fitted_lines"} /\ kind = "LineModelExtremaResult" -> "lines"
    [] OTHER -> "none"

ParamType(kind) == CASE kind = "ExtremaResult" -> "TExtremaResult"
                     [] kind = "LineModelExtremaResult" -> "TLineModelResult"
                     [] OTHER -> "TTplCombinationResult"
TypeOfPart(kind, part) ==
  CASE part = "params" -> ParamType(kind)
    [] part \in {"model", "continuum"} -> "CModelSpectrumResult"
    [] part = "lines" -> "CLineModelSolution"
    [] part = "phot" -> "CModelPhotValueResult"

\* the id of a part of candidate r (from 0) of the n-th stored result
IdOf(n, r, part) == <<n, r, part>>

InitSt == [store |-> EmptyFn, n |-> 0]

\* every (result, dataset, rank) a client can ask for
Table(s) ==
  UNION {LET e == s.store[k] IN
         {[key |-> k, ds |-> d,
           has |-> PartOf(e.kind, d) # "none",
           type |-> IF PartOf(e.kind, d) = "none" THEN "UNKNOWN_ATTRIBUTE"
                    ELSE TypeOfPart(e.kind, PartOf(e.kind, d)),
           ids |-> IF PartOf(e.kind, d) = "none" THEN <<>>
                   ELSE [r \in 1..e.nc |-> IdOf(e.n, r - 1, PartOf(e.kind, d))]]
            : d \in Datasets}
         : k \in {k \in DOMAIN s.store : s.store[k].kind # "PdfCandidatesZResult"}}
\* the candidate a second-pass candidate descends from
Parents(s) ==
  {[key |-> k, ids |-> [r \in 1..s.store[k].nc |-> IdOf(s.store[k].n, r - 1, "parent")]]
     : k \in {k \in DOMAIN s.store : s.store[k].kind = "LineModelExtremaResult"}}
Counts(s) == {[key |-> k, nc |-> s.store[k].nc, kind |-> s.store[k].kind]
                : k \in DOMAIN s.store}

Obs(s, ret) == [ret |-> ret, table |-> Table(s), parents |-> Parents(s),
                counts |-> Counts(s)]

Put1(s, o) ==
  LET m == [s EXCEPT !.n = @ + 1]
      k == <<o.model, o.method>> IN
  IF k \in DOMAIN s.store THEN R(m, Obs(m, "INTERNAL_ERROR"))
  ELSE LET n == [m EXCEPT !.store = Put(@, k, [kind |-> o.kind, nc |-> o.nc, n |-> m.n])]
       IN R(n, Obs(n, "ok"))

Apply(s, o) == CASE o.a = "put" -> Put1(s, o)

Ops(s) == IF s.n >= MaxPut THEN {}
          ELSE {[a |-> "put", model |-> m, method |-> t, kind |-> k, nc |-> c]
                  : m \in Models, t \in Methods, k \in Kinds, c \in 1..MaxCand}
SimOps(s) == Ops(s)
Inv(s) == \A k1, k2 \in DOMAIN s.store : s.store[k1].n = s.store[k2].n => k1 = k2
StepOK(s, o, r) == \A k \in DOMAIN s.store : r.st.store[k] = s.store[k]
Match(a, b) ==
  /\ "ret" \in DOMAIN b /\ a.ret = b.ret
  /\ a.table = Range1(b.table) /\ a.parents = Range1(b.parents)
  /\ a.counts = Range1(b.counts)
=============================================================================
