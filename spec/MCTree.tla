------------------------------ MODULE MCTree ------------------------------
(* Exhaustive exploration of Tree in small configurations.  Every          *)
(* transition is printed for replay in the real code; the properties are   *)
(* checked as invariants of the state and of each transition.              *)
EXTENDS Tree, Json
CONSTANTS NN,        \* nodes
          KK,        \* ordinary keys
          SK,        \* reserved keys
          PV,        \* plain values
          FROZEN,    \* plain values without name and parent
          UU,        \* uuids
          ATT,       \* set of nodes which are attributes containers
          RENAMES,   \* keys a free node may be named
          OPS,       \* operation names
          MAXKIDS,   \* bound on children per node
          Ford, Fval, Fref, Flife, Fsp, Fins,   \* features of ordinary nodes
          HOSTS,     \* nodes operations are applied to
          TREE,      \* every node in one place only
          FAULTS,    \* backend faults as transitions
          EMIT
VARIABLES st, op, res
vars == <<st, op, res>>

Owner(a) == CASE a = "a0" -> "n0" [] a = "a1" -> "n1" [] a = "a2" -> "n2"
C == [f |-> [n \in NN |->
        IF n \in ATT
        THEN [ord |-> TRUE, val |-> FALSE, ref |-> FALSE, life |-> FALSE,
              sp |-> FALSE, ins |-> FALSE, al |-> Flife]
        ELSE [ord |-> Ford, val |-> Fval, ref |-> Fref, life |-> Flife,
              sp |-> Fsp, ins |-> Fins, al |-> FALSE]],
      sk |-> SK,
      frozen |-> FROZEN,
      prov |-> [n \in NN |-> CASE n = "n0" -> {"i0", "i1", "c0"} [] n = "n1" -> {"i1", "c0", "c1"}
                               [] n = "n2" -> {"i1", "i2"} [] OTHER -> {}],
      rank |-> [k \in KK |-> CASE k = "k0" -> 0 [] k = "k1" -> 1 [] k = "k2" -> 2
                               [] OTHER -> 3]]

U0 == CHOOSE f \in [NN -> UU] : \A a, b \in NN : a # b /\ Fref => f[a] # f[b]
S0 == [kids |-> [n \in NN |-> <<>>],
       name |-> [n \in NN |-> IF n \in ATT THEN "__attrs__" ELSE NONE],
       par  |-> [n \in NN |-> IF n \in ATT THEN Owner(n) ELSE NONE],
       uuid |-> U0,
       spc  |-> [n \in NN |-> LET A == {a \in ATT : Owner(a) = n} IN
                    IF A = {} THEN <<>>
                    ELSE <<<<"__attrs__", CHOOSE a \in A : TRUE>>>>],
       own  |-> [n \in NN |-> n],
       tab  |-> [n \in NN |-> {<<U0[n], n>>}]]

\* the location of a node which is not contained anywhere is not specified
(* and neither is the order of children without ordering                    *)
Canon(s) == [s EXCEPT !.par = [n \in NN |->
               IF Holders(s, n) = {} /\ SpHolders(s, n) = {} THEN NONE ELSE s.par[n]],
                      !.kids = [n \in NN |->
               IF C.f[n].ord THEN s.kids[n] ELSE SortKids(C, s.kids[n])]]

Free == NN \ ATT
Items == (KK \cup SK) \X (Free \cup PV)
Op(o) == IF o \in OPS THEN {o} ELSE {}
AllOps ==
       [o : Op("set"), n : HOSTS, k : KK, v : Free \cup PV]
  \cup [o : Op("set"), n : HOSTS \ ATT, k : SK \ {"__attrs__"}, v : Free \cup FROZEN]
  \cup [o : Op("del"), n : HOSTS, k : KK]
  \cup [o : Op("del"), n : HOSTS \ ATT, k : SK \ {"__attrs__"}]
  \cup [o : Op("detach"), n : HOSTS, k : KK]
  \cup [o : Op("pop"), n : HOSTS, k : KK, d : {NONE, "DEF"}]
  \cup [o : Op("popitem"), n : HOSTS, k : KK \cup {NONE}]
  \cup [o : Op("clear"), n : HOSTS]
  \cup [o : Op("update"), n : HOSTS,
        items : {<<a, b>> : a \in Items, b \in Items}]
  \cup [o : Op("setdefault"), n : HOSTS, k : KK, v : Free \cup PV]
  \cup [o : Op("insfirst") \cup Op("inslast"), n : HOSTS \ ATT, v : Free]
  \cup [o : Op("insbefore") \cup Op("insafter"), n : HOSTS \ ATT, v : Free, r : Free]
  \cup [o : Op("swap"), n : HOSTS \ ATT, v : Free, r : Free]
  \cup [o : Op("setuuid"), n : NN \ ATT, k : UU]
  \cup [o : Op("rename"), n : Free, k : RENAMES]
  \cup [o : Op("newbad"), n : Free]

OneSpot(s, n, k, v) == IsNode(s, v) =>
    (Holders(s, v) = {} /\ SpHolders(s, v) = {})
      \/ (Has(s.kids[n], k) /\ At(s.kids[n], k) = v) \/ (Has(s.spc[n], k) /\ At(s.spc[n], k) = v)
\* only calls whose choice of key makes sense
Sensible(s, o) ==
    /\ o.o = "popitem" =>
         IF s.kids[o.n] = <<>> THEN o.k = NONE
         ELSE IF C.f[o.n].ord THEN o.k = s.kids[o.n][Len(s.kids[o.n])][1]
         ELSE Has(s.kids[o.n], o.k)
    /\ o.o = "rename" => Holders(s, o.n) = {} /\ SpHolders(s, o.n) = {} /\ s.name[o.n] # o.k
    /\ (TREE /\ o.o \in {"set", "setdefault"}) => OneSpot(s, o.n, o.k, o.v)
    /\ (TREE /\ o.o = "update") =>
         /\ \A i \in 1..2 : OneSpot(s, o.n, o.items[i][1], o.items[i][2])
         /\ IsNode(s, o.items[1][2]) => o.items[1][2] # o.items[2][2]
    /\ o.o = "update" => o.items[1][1] # o.items[2][1]

Init == st = S0 /\ op = [o |-> "init"] /\ res = <<>>
Next == \E o \in AllOps :
          /\ Sensible(st, o) = TRUE
          /\ InDomain(C, st, o) = TRUE
          /\ LET r == Apply(C, st, o) IN
               /\ st' = Canon(r.st)
               /\ op' = o
               /\ res' = [out |-> r.out, ev |-> r.ev]
(* the backend raises somewhere within an operation which would succeed    *)
Fault == /\ FAULTS
         /\ \E o \in AllOps :
              /\ o.o \notin {"update", "clear", "rename", "setuuid"}
              /\ Sensible(st, o) = TRUE
              /\ InDomain(C, st, o) = TRUE
              /\ LET r == Apply(C, st, o) IN
                   /\ r.out[1] = "ok" /\ Canon(r.st) # st
              /\ op' = [o |-> "fault", n |-> o.n, op |-> o]
              /\ res' = [out |-> <<"err", "any">>, ev |-> <<>>]
              /\ UNCHANGED st
Spec == Init /\ [][Next \/ Fault]_vars

Bounded == \A n \in NN : Len(st.kids[n]) <= MAXKIDS
View == <<st.kids, st.name, st.par, st.uuid, st.spc>>
Proj(s) == [kids |-> s.kids, name |-> s.name, par |-> s.par, uuid |-> s.uuid, spc |-> s.spc]
Emit == EMIT => PrintT("E " \o ToJson([s |-> Proj(st), o |-> op', r |-> res', d |-> Proj(st')]))

(* answers to all queries in a state *)
Q(q, n) == [q |-> q, n |-> n]
QA(q, n, a) == [q |-> q, n |-> n, a |-> a]
Queries ==
       {Q(q, n) : q \in {"keys", "iter", "iterkeys", "values", "itervalues", "items",
                         "iteritems", "len", "path", "root", "home", "repr"}, n \in NN}
  \cup {Q("rkeys", n) : n \in IF Ford THEN NN ELSE ATT}
  \cup {QA(q, n, k) : q \in {"contains", "has_key", "get", "getn", "getitem", "getattr"},
                      n \in NN, k \in KK}
  \cup {QA(q, n, i) : q \in {"acquire", "filtered"}, n \in NN, i \in {"i0", "i1", "i2"}}
  \cup {QA("acquire", n, i) : n \in NN, i \in {"c0", "c1"}}
  \cup {[q |-> "walk", n |-> n, p |-> <<a, b>>] : n \in NN, a \in KK \cup SK, b \in KK \cup SK}
  \cup (IF Fsp THEN {Q("spaces", n) : n \in NN \ ATT} \cup {Q("attrs", n) : n \in {Owner(a) : a \in ATT}}
                  \cup {QA(q, n, k) : q \in {"space", "contains", "get", "getitem"},
                                      n \in NN \ ATT, k \in SK}
       ELSE {})
Answers(s) == {LET a == Ans(C, s, q) IN <<q, a[1], a[2]>> : q \in Queries}
EmitS == EMIT => PrintT("S " \o ToJson([s |-> Proj(st), a |-> Answers(st)]))

---------------------------------------------------------------------------
(* C01: every contained node of a tree is located where it is stored,      *)
(* as long as it is stored in one place only                                *)
NPlaces(s, v) == Cardinality({<<m, i>> \in NN \X (1..MAXKIDS + 1) :
                    i <= Len(s.kids[m]) /\ s.kids[m][i][2] = v})
               + Cardinality({<<m, i>> \in NN \X (1..3) :
                    i <= Len(s.spc[m]) /\ s.spc[m][i][2] = v})
LastPlaceLocated ==      \* what a successful write stored is located there
    [][\A v \in NN :
         (res'.out[1] = "ok" /\ op'.o \in {"set", "insfirst", "inslast", "insbefore", "insafter"}
            /\ op'.v = v) => Located(st', v) /\ st'.par[v] = op'.n]_vars
SingleParentLocated ==   \* without multiple storage all contained nodes are located
    [][((\A v \in NN : NPlaces(st, v) <= 1 /\ NPlaces(st', v) <= 1) /\
         (\A v \in NN : NPlaces(st, v) = 1 => Located(st, v))) =>
            (\A v \in NN : NPlaces(st', v) = 1 => Located(st', v))]_vars
(* C03 *)
KeysUnique == \A n \in NN : \A i, j \in 1..Len(st.kids[n]) :
                 st.kids[n][i][1] = st.kids[n][j][1] => i = j
OneNodeOnly == [][\A n \in NN : n # op'.n => st'.kids[n] = st.kids[n] /\ st'.spc[n] = st.spc[n]]_vars
(* C04 *)
RejectedNoEffect ==
    [][(res'.out[1] = "err" /\ op'.o # "update") => Proj(st') = Proj(st) /\ res'.ev = <<>>]_vars
(* C05 *)
Common(s, t) == ToSet(s) \cap ToSet(t)
Untouched(o) == IF "v" \in DOMAIN o THEN {o.v} ELSE {}
OrderKept ==
    [][\A n \in NN : op'.o \notin {"swap", "update"} =>
         LET keep == Common(Keys(st.kids[n]), Keys(st'.kids[n]))
             in(x) == x \in keep
         IN SelectSeq(Keys(st.kids[n]), in) = SelectSeq(Keys(st'.kids[n]), in)]_vars
SwapExact ==
    [][(op'.o = "swap" /\ res'.out[1] = "ok") =>
         LET s == st.kids[op'.n]  t == st'.kids[op'.n] IN
         /\ Len(s) = Len(t)
         /\ \A i \in 1..Len(s) : s[i][2] \notin {op'.v, op'.r} => t[i] = s[i]
         /\ \A i \in 1..Len(s) : s[i][2] = op'.v => t[i][2] = op'.r]_vars
InsertExact ==
    [][res'.out[1] = "ok" =>
         LET t == Vals(st'.kids[op'.n])  L == Len(t) IN
         /\ op'.o = "insfirst" => t[1] = op'.v
         /\ op'.o = "inslast" => t[L] = op'.v
         /\ op'.o = "insbefore" => \E i \in 1..L - 1 : t[i] = op'.v /\ t[i + 1] = op'.r
         /\ op'.o = "insafter" => \E i \in 1..L - 1 : t[i] = op'.r /\ t[i + 1] = op'.v]_vars
(* C06 *)
IndexExact == Fref => \A n \in NN \ ATT :
                 st.tab[st.own[n]] = {<<st.uuid[m], m>> : m \in Comp(C, st, n)}
UuidUnique == Fref => \A n \in NN \ ATT : \A a, b \in Comp(C, st, n) :
                 a # b => st.uuid[a] # st.uuid[b]
OnePlace == Fref => \A n \in NN \ ATT : Cardinality(Places(st, n)) <= 1
(* C07: notifications tell exactly what changed *)
Links(s) == {<<n, s.kids[n][i][1], s.kids[n][i][2]>> : <<n, i>> \in
               {<<m, j>> \in NN \X (1..MAXKIDS + 2) : j <= Len(s.kids[m])}}
EventsTruthful ==
    [][Flife =>
         /\ \A i \in 1..Len(res'.ev) : LET e == res'.ev[i] IN
              /\ e.t \in {"removed", "detached"} => <<e.p, e.k, e.o>> \in Links(st) \ Links(st')
              /\ e.t = "added" => (<<e.p, e.k, e.o>> \in Links(st') \/ op'.o = "update")
         /\ \A x \in Links(st') \ Links(st) :
              (x[1] \notin ATT /\ op'.o # "swap") =>
                Cardinality({i \in 1..Len(res'.ev) : LET e == res'.ev[i] IN
                   e.t = "added" /\ <<e.p, e.k, e.o>> = x}) = 1
         /\ \A x \in Links(st) \ Links(st') :
              (x[1] \notin ATT /\ ~Has(st'.kids[x[1]], x[2])) =>
                Cardinality({i \in 1..Len(res'.ev) : LET e == res'.ev[i] IN
                   e.t = (IF op'.o = "detach" THEN "detached" ELSE "removed")
                     /\ <<e.p, e.k, e.o>> = x}) = 1]_vars
(* C08 *)
ReservedApart == \A n \in NN : \A i \in 1..Len(st.kids[n]) :
                    C.f[n].sp => ~IsSp(C, st.kids[n][i][1])
SpacesApart ==
    [][\A n \in NN : (st'.kids[n] # st.kids[n]) => (st'.spc = st.spc \/ op'.o = "update")]_vars
(* C02 *)
HomeAgain == \A n \in NN : Placed(st, n, 8) =>
                Walk(C, st, RootOf(st, n), Tail(PathOf(st, n))) = n
=============================================================================
