------------------------------- MODULE Filters -------------------------------
(* The sample filters of a spectrum (Filter.py, FilterLoader.py): a list of  *)
(* rules read from the parameters or added one by one, applied to a table    *)
(* whose rows are samples.  Numbers are counted in halves; NAN is a          *)
(* not-a-number cell.                                                        *)
EXTENDS Base
CONSTANTS Mode

NAN == 9999
Instr == {"<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^"}
BitInstr == {"&", "~&", "0&", "^"}
\* the names of the table's columns, and the names filters may use for them
Column(k) == CASE k = "Wave" -> "waves" [] k = "Flux" -> "fluxes" [] k = "Err" -> "errors" [] OTHER -> k
Cols == {"waves", "fluxes", "errors", "flag", "other"}
IntCols == {"flag", "other"}

RECURSIVE BitOp(_, _, _)
BitOp(f, a, b) ==
  IF a = 0 /\ b = 0 THEN 0
  ELSE (IF f[<<a % 2, b % 2>>] THEN 1 ELSE 0) + 2 * BitOp(f, a \div 2, b \div 2)
AND2(a, b) == BitOp([p \in {0, 1} \X {0, 1} |-> p[1] = 1 /\ p[2] = 1], a, b)
XOR2(a, b) == BitOp([p \in {0, 1} \X {0, 1} |-> p[1] # p[2]], a, b)

\* does the value x (in halves) satisfy the rule
Accepts(x, i, v) ==
  CASE i = "<" -> x # NAN /\ x < v
    [] i = ">" -> x # NAN /\ x > v
    [] i = "<=" -> x # NAN /\ x <= v
    [] i = ">=" -> x # NAN /\ x >= v
    [] i = "=" -> x # NAN /\ x = v
    [] i = "!=" -> x = NAN \/ x # v
    [] i = "in" -> x # NAN /\ x \in Range1(v)
    [] i = "~in" -> x = NAN \/ x \notin Range1(v)
    [] i = "&" -> AND2(x \div 2, v \div 2) # 0
    [] i = "~&" -> AND2(x \div 2, v \div 2) = 0
    [] i = "0&" -> x = 0 \/ AND2(x \div 2, v \div 2) # 0
    [] i = "^" -> XOR2(x \div 2, v \div 2) # 0

InitSt == [rows |-> <<>>, filters |-> <<>>]

BadKey(fs) == \E i \in DOMAIN fs : Column(fs[i].key) \notin Cols
BadInstr(fs) == \E i \in DOMAIN fs : fs[i].instruction \notin Instr
Kept(rows, fs) ==
  SelectSeq(rows, LAMBDA r : \A i \in DOMAIN fs : Accepts(r[Column(fs[i].key)], fs[i].instruction, fs[i].value))
Ret(r) == [ret |-> r]

Apply(s, o) ==
  CASE o.a = "table" -> R([s EXCEPT !.rows = o.rows], [ret |-> "ok", rows |-> o.rows])
    [] o.a = "load" ->   \* from the parameters
         IF BadInstr(o.filters) THEN R(s, Ret("INVALID_FILTER_INSTRUCTION"))
         ELSE R([s EXCEPT !.filters = o.filters], [ret |-> "ok", filters |-> o.filters])
    [] o.a = "add" ->
         IF BadInstr(<<o.filter>>) THEN R(s, Ret("INVALID_FILTER_INSTRUCTION"))
         ELSE R([s EXCEPT !.filters = Append(@, o.filter)], [ret |-> "ok", filters |-> Append(s.filters, o.filter)])
    [] o.a = "none" ->   \* parameters without a filters section
         R([s EXCEPT !.filters = <<>>], [ret |-> "ok", filters |-> <<>>])
    [] o.a = "keep" ->
         IF BadKey(s.filters) THEN R(s, Ret("INVALID_FILTER_KEY"))
         ELSE R([s EXCEPT !.rows = Kept(@, s.filters)], [ret |-> "ok", rows |-> Kept(s.rows, s.filters)])

Match(e, b) == "ret" \in DOMAIN b /\ \A k \in DOMAIN e : k \in DOMAIN b /\ e[k] = b[k]

Inv(s) == TRUE
\* filtering is idempotent, and only ever removes rows
StepOK(s, o, r) ==
  (o.a = "keep" /\ r.obs.ret = "ok") =>
     /\ Kept(r.st.rows, s.filters) = r.st.rows
     /\ Range1(r.st.rows) \subseteq Range1(s.rows)

F(k, i, v) == [key |-> k, instruction |-> i, value |-> v]
Lists == {<<>>, <<0>>, <<2, 6>>, <<4, 2, 4>>}
Nums == {0, 1, 2, 3, 4, 6, 10}
BitNums == {0, 2, 4, 6, 12}
Rules(keys) ==
  {F(k, i, v) : k \in keys, i \in Instr \ (BitInstr \cup {"in", "~in"}), v \in Nums}
  \cup {F(k, i, v) : k \in keys, i \in {"in", "~in"}, v \in Lists}
  \cup {F(k, i, v) : k \in keys \cap IntCols, i \in BitInstr, v \in BitNums}
BadRules == {F("nope", "<", 2), F("wave", "=", 2), F("flag", "~^", 2), F("flag", "==", 2), F("flag", "~<", 2), F("nope", "not", 2)}
Keys == {"Wave", "Flux", "Err", "waves", "fluxes", "errors", "flag", "other"}
Row(w, f, e, g, h) == [waves |-> w, fluxes |-> f, errors |-> e, flag |-> g, other |-> h]
\* every value of every column, in different rows
Full == [i \in 1..12 |-> Row(i - 1, IF i = 5 THEN NAN ELSE (7 * i) % 12, (5 * i) % 11,
                             2 * ((i - 1) % 8), 2 * ((3 * i) % 7))]
Single == [i \in 1..1 |-> Row(2, 3, 4, 6, 2)]
Tables == {Full, Single, <<>>}
Loads == {<<>>} \cup {<<f>> : f \in Rules(Keys) \cup BadRules}
PairRules == {F("flag", "&", 2), F("flag", "0&", 4), F("flag", "^", 6), F("Wave", ">=", 4), F("Flux", "<", 6), F("fluxes", "!=", 4),
              F("other", "~in", <<0, 4>>), F("Err", "in", <<2, 6, 10>>), F("waves", "<=", 16), F("flag", "~&", 8)}
Pairs == {<<a, b>> : a \in PairRules \cup BadRules, b \in PairRules \cup BadRules}
CellsI == {0, 2, 4, 6, 8, 10, 12, 14}
CellsF == {0, 1, 2, 3, 4, 5, 6, 8, 10, NAN}

Ops(s) ==
  IF s.rows = <<>> /\ s.filters = <<>> THEN {[a |-> "table", rows |-> t] : t \in {Full}}
     \cup {[a |-> "keep"], [a |-> "none"]}
  ELSE {[a |-> "keep"]} \cup (IF s.filters # <<>> THEN {} ELSE {[a |-> "load", filters |-> f] : f \in Loads \cup Pairs})
SimRow == {Row(2 * a, b, c, d, e) : a \in {1, 2, 3, 4}, b \in CellsF, c \in {1, 3}, d \in CellsI, e \in {0, 6}}
SimOps(s) ==
  {[a |-> "keep"], [a |-> "none"]} \cup {[a |-> "table", rows |-> t] : t \in Tables}
  \cup {[a |-> "add", filter |-> f] : f \in IF Len(s.filters) < 4 THEN PairRules \cup BadRules ELSE {}}
  \cup {[a |-> "load", filters |-> f] : f \in Pairs}
=============================================================================
