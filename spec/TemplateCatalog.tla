-------------------------- MODULE TemplateCatalog ---------------------------
(* The template catalogue: four views (original or orthogonal, linear or     *)
(* log sampled), each a list of templates per category.  The orthogonal and  *)
(* log views are derived from another one, element by element: replacing or  *)
(* clearing a template clears what was derived from it.                      *)
EXTENDS Base
CONSTANTS CatSeq, Names, MaxLenL, MaxAdd

Cats == Range1(CatSeq)
\* views: 1 original, 2 original log, 3 orthogonal, 4 orthogonal log
Views == 1..4
Null == <<0, 0>>
Derived(k) == CASE k = 1 -> {2, 3, 4} [] k = 2 -> {4} [] OTHER -> {}
Parent(k) == CASE k = 2 -> 1 [] k = 3 -> 1 [] k = 4 -> 2 [] OTHER -> 0
\* orth, log: the selected view; n: templates created; lsf: line spread
\* function the orthogonal templates were made for ("none", "set", "any")
InitSt == [v |-> [k \in Views |-> [c \in Cats |-> <<>>]], orth |-> 0, log |-> 0, n |-> 0, lsf |-> "none"]
Cur(s) == 1 + 2 * s.orth + s.log

AllNull(l) == \A i \in DOMAIN l : l[i] = Null
Tidy(l) == IF AllNull(l) THEN <<>> ELSE l
SetAt(l, i, x) == IF i \in DOMAIN l THEN [l EXCEPT ![i] = x] ELSE l
\* clear element i of view k, and what is derived from it
ClearAt(v, k, c, i) == [j \in Views |-> [d \in Cats |->
   IF d = c /\ (j = k \/ j \in Derived(k)) THEN Tidy(SetAt(v[j][c], i, Null)) ELSE v[j][d]]]
ClearAll(v, k, c) == [j \in Views |-> [d \in Cats |->
   IF d = c /\ (j = k \/ j \in Derived(k)) THEN <<>> ELSE v[j][d]]]
Lsf(s, v, c) ==
  LET had == {k \in {3, 4} : s.v[k][c] # <<>>}
      has == {k \in {3, 4} : v[k][c] # <<>>} IN
  IF had # {} /\ has = {} THEN "none"
  ELSE IF s.lsf = "set" /\ had # has THEN "any" ELSE s.lsf

Flat(f) == FoldSeq(LAMBDA c, acc : acc \o f[c], <<>>, CatSeq)
Ids(l) == [i \in DOMAIN l |-> l[i][1]]
Hits(l, nm) == SelectSeq(l, LAMBDA e : e[1] # 0 /\ e[2] = nm)
ByName(l, nm) == IF Hits(l, nm) = <<>> THEN 0 ELSE Hits(l, nm)[1][1]
Live(l) == Len(SelectSeq(l, LAMBDA e : e # Null))
Obs(s, ret) ==
  [ret |-> ret, lsf |-> s.lsf,
   v |-> [k \in Views |-> [i \in DOMAIN CatSeq |-> Ids(s.v[k][CatSeq[i]])]],
   cur |-> [i \in DOMAIN CatSeq |-> Ids(s.v[Cur(s)][CatSeq[i]])],
   live |-> [i \in DOMAIN CatSeq |-> Live(s.v[Cur(s)][CatSeq[i]])],
   list |-> Ids(Flat(s.v[Cur(s)])),
   orth |-> [l \in 1..2 |-> Ids(Flat(s.v[2 + l]))],
   byname |-> [k \in Views |-> [nm \in 1..Names |-> ByName(Flat(s.v[k]), nm)]],
   curname |-> [nm \in 1..Names |-> ByName(Flat(s.v[Cur(s)]), nm)],
   sel |-> <<s.orth, s.log>>,
   cats |-> {c \in Cats : s.v[Cur(s)][c] # <<>>}]

Ok(s, v) == R([s EXCEPT !.v = v], Obs([s EXCEPT !.v = v], "ok"))
Add(s, o, e) == [s.v EXCEPT ![Cur(s)][o.c] = Append(@, e)]
InRange(s, k, c, i) == i \in DOMAIN s.v[k][c]

Apply(s, o) ==
  CASE o.a = "select" -> LET t == [s EXCEPT !.orth = o.o, !.log = o.l] IN R(t, Obs(t, "ok"))
    [] o.a = "home" -> LET t == [s EXCEPT !.orth = 0, !.log = 0] IN R(t, Obs(t, "ok"))
    [] o.a = "lsf" -> LET t == [s EXCEPT !.lsf = "set"] IN R(t, Obs(t, "ok"))
    [] o.a = "add" -> LET t == [s EXCEPT !.n = @ + 1] IN Ok(t, Add(t, o, <<t.n, o.nm>>))
    [] o.a = "nameless" -> LET t == [s EXCEPT !.n = @ + 1] IN R(t, Obs(t, "INTERNAL_ERROR"))
    [] o.a = "set" ->
         LET t == [s EXCEPT !.n = @ + 1]
             k == Cur(s) IN
         IF s.v[k][o.c] = <<>> THEN Ok(t, Add(t, o, <<t.n, o.nm>>))
         ELSE IF ~InRange(s, k, o.c, o.i + 1) THEN R(t, Obs(t, "std"))
         ELSE LET v0 == ClearAt(s.v, k, o.c, o.i + 1)
                  v1 == [v0 EXCEPT ![k][o.c] = [s.v[k][o.c] EXCEPT ![o.i + 1] = <<t.n, o.nm>>]]
                  u == [t EXCEPT !.v = v1, !.lsf = Lsf(s, v1, o.c)] IN
              \* an orthogonal template replaced in place may forget its line spread function
              LET w == IF k \in {3, 4} /\ u.lsf = "set" THEN [u EXCEPT !.lsf = "any"] ELSE u
              IN R(w, Obs(w, "ok"))
    [] o.a = "clear" ->
         LET k == 1 + 2 * o.o + o.l IN
         IF s.v[k][o.c] = <<>> THEN R(s, Obs(s, "ok"))
         ELSE IF ~InRange(s, k, o.c, o.i + 1) THEN R(s, Obs(s, "std"))
         ELSE LET v1 == ClearAt(s.v, k, o.c, o.i + 1)
                  u == [s EXCEPT !.v = v1, !.lsf = Lsf(s, v1, o.c)] IN R(u, Obs(u, "ok"))
    [] o.a = "clearall" ->
         LET k == 1 + 2 * o.o + o.l IN
         IF s.v[k][o.c] = <<>> THEN R(s, Obs(s, "ok"))
         ELSE LET v1 == ClearAll(s.v, k, o.c)
                  u == [s EXCEPT !.v = v1, !.lsf = Lsf(s, v1, o.c)] IN R(u, Obs(u, "ok"))

\* derived templates are only made of templates that are there
CanPut(s, k, c, i) == k = 1 \/ (i \in DOMAIN s.v[Parent(k)][c] /\ s.v[Parent(k)][c][i] # Null)
OpsK(s, k) ==
  (IF s.n >= MaxAdd THEN {} ELSE
    {[a |-> "add", c |-> c, nm |-> nm] : nm \in 1..Names,
       c \in {d \in Cats : Len(s.v[k][d]) < MaxLenL /\ CanPut(s, k, d, Len(s.v[k][d]) + 1)}}
    \cup {[a |-> "set", c |-> c, nm |-> nm, i |-> i] : nm \in 1..Names, c \in {d \in Cats : CanPut(s, k, d, 1)},
            i \in {0}}
    \cup UNION {{[a |-> "set", c |-> c, nm |-> 1, i |-> i] :
            i \in {j \in -1..MaxLenL : j + 1 \notin DOMAIN s.v[k][c] \/ CanPut(s, k, c, j + 1)}} :
            c \in {d \in Cats : s.v[k][d] # <<>>}})
Ops(s) ==
  {[a |-> "select", o |-> x, l |-> y] : x \in {0, 1}, y \in {0, 1}}
  \cup {[a |-> "home"]}
  \cup (IF s.v[3] # s.v[4] \/ s.lsf = "set" THEN {[a |-> "lsf"]} ELSE {})
  \cup (IF s.n >= MaxAdd THEN {} ELSE {[a |-> "nameless"]})
  \cup OpsK(s, Cur(s))
  \cup UNION {{[a |-> "clear", c |-> c, o |-> x, l |-> y, i |-> i] : c \in Cats, i \in -1..Len(s.v[1 + 2 * x + y][CatSeq[1]])}
              \cup {[a |-> "clearall", c |-> c, o |-> x, l |-> y] : c \in Cats}
             : x \in {0, 1}, y \in {0, 1}}
\* building up is as frequent as tearing down
SimOps(s) == {o \in Ops(s) : (o.a \in {"clear", "clearall", "nameless"}) => s.n % 5 = 4} \cup OpsK(s, Cur(s))

\* nothing derived outlives its original
Inv(s) == \A k \in 2..4 : \A c \in Cats :
  /\ Len(s.v[k][c]) <= Len(s.v[Parent(k)][c])
  /\ \A i \in DOMAIN s.v[k][c] : s.v[k][c][i] # Null => s.v[Parent(k)][c][i] # Null
StepOK(s, o, r) ==
  \* a template that is there stays the same one, or its view was changed on purpose
  /\ (o.a \in {"select", "home", "lsf", "nameless"}) => r.st.v = s.v
  /\ r.obs.ret = "std" => r.st.v = s.v
  /\ (o.a \in {"add", "set"}) => \A c \in Cats \ {o.c} : \A k \in Views : r.st.v[k][c] = s.v[k][c]
  /\ (o.a = "set" /\ r.obs.ret = "ok") =>
       \A k \in Views : \A i \in DOMAIN r.st.v[k][o.c] : r.st.v[k][o.c][i] # Null =>
          r.st.v[k][o.c][i] = <<r.st.n, o.nm>> \/ (i \in DOMAIN s.v[k][o.c] /\ r.st.v[k][o.c][i] = s.v[k][o.c][i])
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ \A k \in DOMAIN e \ {"lsf", "cats"} : k \in DOMAIN b /\ e[k] = b[k]
  /\ e.lsf \in {"any", b.lsf}
  /\ e.cats \subseteq Range1(b.cats)
=============================================================================
