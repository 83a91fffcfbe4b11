----------------------------- MODULE ParamStore -----------------------------
(* The parameter store: a tree of parameters read by absolute name, from    *)
(* the current scope, or from an enclosing scope given by its depth or kind *)
(* (CParameterStore, CScopeStore).  A parameter is a node of the tree with  *)
(* a text and possibly list items; it can be read as any type its text can  *)
(* be read as.                                                              *)
EXTENDS Base
CONSTANTS Names, Texts, MaxStack, MaxPath, MaxNodes, Acts

InitSt == [tree |-> EmptyFn, stack |-> <<>>]
Kinds == {"UNDEFINED", "SPECTRUMMODEL", "STAGE", "METHOD"}
Types == {"string", "bool", "int", "float"}
MISSING == "MISSING_PARAMETER"

\* what a text reads as; "!" when it does not
Conv(t, x) ==
  CASE t = "string" -> x
    [] t = "bool" -> IF x \in {"true", "1"} THEN "T" ELSE IF x \in {"false", "0"} THEN "F" ELSE "!"
    [] t = "int" -> IF x \in {"0", "1", "3", "-2"} THEN x ELSE "!"
    [] t = "float" -> CASE x = "0" -> "0" [] x = "1" -> "2" [] x = "3" -> "6" [] x = "-2" -> "-4" [] x = "2.5" -> "5" [] OTHER -> "!"

Prefs(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
Node(d, l) == [d |-> d, items |-> l]
IsBelow(q, p) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
\* writing a value creates the sections above it
Touch(tr, p) == [q \in DOMAIN tr \cup Prefs(p) |-> IF q \in DOMAIN tr THEN tr[q] ELSE Node("", <<>>)]
SetValue(tr, p, d) == LET t == Touch(tr, p) IN [t EXCEPT ![p].d = d]
SetList(tr, p, l) ==
  LET t == Touch([q \in {q \in DOMAIN tr : ~IsBelow(q, p)} |-> tr[q]], p)
  IN [t EXCEPT ![p] = Node("", l)]

HasP(tr, p) == p \in DOMAIN tr
GetP(tr, t, p) == IF p \notin DOMAIN tr THEN MISSING
                  ELSE LET v == Conv(t, tr[p].d) IN IF v = "!" THEN MISSING ELSE "=" \o v
\* a list that holds an item of another type cannot be read at all
ListP(tr, t, p) == IF p \notin DOMAIN tr THEN <<MISSING>>
                   ELSE LET l == [i \in DOMAIN tr[p].items |-> Conv(t, tr[p].items[i])]
                        IN IF \E i \in DOMAIN l : l[i] = "!" THEN <<"std">> ELSE <<"ok">> \o l
Children(tr, p) == \E q \in DOMAIN tr : Len(q) = Len(p) + 1 /\ IsBelow(q, p)

ScopeNames(s) == [i \in DOMAIN s.stack |-> s.stack[i].name]
Level(s, k) == LET m == {i \in DOMAIN s.stack : s.stack[i].type = k} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
At(s, d) == SubSeq(ScopeNames(s), 1, d)
ReadAt(s, t, d, p) == IF d < 0 \/ d > Len(s.stack) THEN "INTERNAL_ERROR" ELSE GetP(s.tree, t, At(s, d) \o p)

Probe(s, o) ==
  LET tr == s.tree
      full == ScopeNames(s) \o o.path
      lists == ~Children(tr, o.path) /\ ~Children(tr, full)
  IN [has |-> HasP(tr, o.path), hasscoped |-> HasP(tr, full),
      get |-> [t \in Types |-> GetP(tr, t, o.path)],
      scoped |-> [t \in Types |-> GetP(tr, t, full)],
      at |-> [d \in 1..7 |-> ReadAt(s, "string", d - 2, o.path)],
      atkind |-> [k \in Kinds \ {"UNDEFINED"} |->
                   IF Level(s, k) = 0 THEN "std" ELSE ReadAt(s, "int", Level(s, k), o.path)],
      hasat |-> [d \in 1..3 |-> IF d - 1 > Len(s.stack) THEN FALSE ELSE HasP(tr, At(s, d - 1) \o o.path)],
      list |-> IF lists THEN [t \in {"int", "string"} |-> ListP(tr, t, o.path)] ELSE [t \in {"int", "string"} |-> <<"any">>],
      lscoped |-> IF lists THEN [t \in {"int", "string"} |->
                      IF HasP(tr, full) THEN ListP(tr, t, full) ELSE ListP(tr, t, o.path)]
                  ELSE [t \in {"int", "string"} |-> <<"any">>]]

(* What the library derives from a configuration                             *)
B(x) == x = "T"
Ism(m) == CASE m.method \in {"templateFittingSolve", "tplCombinationSolve"} -> B(m.ism)
          [] m.method = "lineModelSolve" -> B(m.cism) \/ B(m.rism)
          [] OTHER -> FALSE
Igm(m) == CASE m.method \in {"templateFittingSolve", "tplCombinationSolve"} -> B(m.igm)
          [] m.method = "lineModelSolve" -> B(m.cigm)
          [] OTHER -> FALSE
Fft(m) == CASE m.method = "templateFittingSolve" -> B(m.fft)
          [] m.method = "lineModelSolve" -> B(m.cfft)
          [] OTHER -> FALSE
Ortho(m) == IF m.method # "lineModelSolve" THEN "F"
            ELSE IF m.cc = "" THEN MISSING
            ELSE IF m.cc \in {"tplFit", "tplFitAuto"} THEN "T" ELSE "F"
EnOrtho(m) == IF Ortho(m) # "T" THEN Ortho(m)
              ELSE IF m.ignore = "" THEN MISSING ELSE IF B(m.ignore) THEN "F" ELSE "T"
FftModels(ms) == {i \in DOMAIN ms : Fft(ms[i])}
Facts(ms) ==
  [models |-> [i \in DOMAIN ms |-> [ism |-> Ism(ms[i]), igm |-> Igm(ms[i]), fft |-> Fft(ms[i]),
                                    ortho |-> Ortho(ms[i]), enortho |-> EnOrtho(ms[i])]],
   rebin |-> FftModels(ms) # {},
   step |-> IF FftModels(ms) = {} THEN "none"
            ELSE IF \E i \in FftModels(ms) : ms[i].step = 0 THEN MISSING
            ELSE ToString(Min({ms[i].step : i \in FftModels(ms)}))]

CanPush(s, k) ==
  CASE k = "UNDEFINED" -> TRUE
    [] k = "SPECTRUMMODEL" -> Level(s, "STAGE") = 0 /\ Level(s, k) = 0
    [] k = "STAGE" -> Level(s, "METHOD") = 0 /\ Level(s, k) = 0
    [] OTHER -> Level(s, k) = 0 /\ Len(s.stack) > 0 /\ Last1(s.stack).type = "STAGE"

Ret(r) == [ret |-> r]
Apply(s, o) ==
  CASE o.a = "set" -> R([s EXCEPT !.tree = SetValue(@, o.path, o.text)], Ret("ok"))
    [] o.a = "setlist" -> R([s EXCEPT !.tree = SetList(@, o.path, o.items)], Ret("ok"))
    [] o.a = "push" -> R([s EXCEPT !.stack = Append(@, [name |-> o.name, type |-> o.type])], Ret("ok"))
    [] o.a = "pop" -> R([s EXCEPT !.stack = Front1(@)], Ret("ok"))
    [] o.a = "probe" -> R(s, [ret |-> "ok", v |-> Probe(s, o)])
    [] o.a = "facts" -> R(s, [ret |-> "ok", v |-> Facts(o.models)])

\* (the items of a node that is also a section are left open)
Same(x, y) == x["int"] = <<"any">> \/ x = y
Match(e, b) ==
  /\ "ret" \in DOMAIN b /\ e.ret = b.ret
  /\ "v" \in DOMAIN e =>
       IF "has" \in DOMAIN e.v
       THEN /\ \A k \in DOMAIN e.v \ {"list", "lscoped"} : e.v[k] = b.v[k]
            /\ Same(e.v.list, b.v.list) /\ Same(e.v.lscoped, b.v.lscoped)
       ELSE e.v = b.v
Inv(s) == \A p \in DOMAIN s.tree : Prefs(p) \subseteq DOMAIN s.tree
StepOK(s, o, r) ==
  /\ o.a \in {"probe", "facts"} => r.st = s
  \* reading at full depth is reading from the current scope
  /\ (o.a = "probe" /\ Len(s.stack) <= 5) => r.obs.v.at[Len(s.stack) + 2] = r.obs.v.scoped["string"]

Paths == UNION {[1..n -> Names] : n \in 1..MaxPath}
Sets(s) == {o \in [a : {"set"}, path : Paths, text : Texts] :
               Cardinality(DOMAIN s.tree \cup Prefs(o.path)) <= MaxNodes}
Lists(s) == {o \in [a : {"setlist"}, path : Paths, items : {<<>>, <<"3">>, <<"1", "abc">>, <<"3", "-2">>}] :
               Cardinality(DOMAIN s.tree \cup Prefs(o.path)) <= MaxNodes}
Pushes(s) == IF Len(s.stack) >= MaxStack THEN {}
             ELSE {o \in [a : {"push"}, name : Names, type : Kinds] : CanPush(s, o.type)}
Pops(s) == IF s.stack = <<>> THEN {} ELSE {[a |-> "pop"]}
M0 == [method |-> "", ism |-> "", igm |-> "", fft |-> "", cism |-> "", rism |-> "", cigm |-> "", cfft |-> "", cc |-> "", ignore |-> "", step |-> 1]
TB == {"T", "F", ""}
Models == {[M0 EXCEPT !.method = x, !.ism = a, !.igm = b, !.fft = c, !.cism = "T", !.cigm = "T", !.cfft = "T"] :
             x \in {"", "templateFittingSolve", "tplCombinationSolve"}, a \in TB, b \in TB, c \in TB}
     \cup {[M0 EXCEPT !.method = "lineModelSolve", !.cism = a, !.rism = b, !.cigm = c, !.cfft = a, !.cc = d, !.ignore = e, !.ism = "T", !.fft = "T"] :
             a \in TB, b \in TB, c \in TB, d \in {"", "tplFit", "tplFitAuto", "fromSpectrum", "noContinuum"}, e \in TB}
Pairs == {<<[M0 EXCEPT !.method = "templateFittingSolve", !.fft = a, !.step = x],
            [M0 EXCEPT !.method = "lineModelSolve", !.cfft = b, !.step = y],
            [M0 EXCEPT !.method = "tplCombinationSolve", !.fft = c, !.step = 1]>> :
             a \in TB, b \in TB, c \in {"T", "F"}, x \in 0..3, y \in 0..3}
Ops(s) == IF Acts = "store"
          THEN Sets(s) \cup Lists(s) \cup Pushes(s) \cup Pops(s) \cup [a : {"probe"}, path : Paths]
          ELSE [a : {"facts"}, models : {<<m>> : m \in Models} \cup Pairs]
SimOps(s) == Ops(s)
=============================================================================
