------------------------------- MODULE Tree -------------------------------
(* A forest of mapping nodes: the state of all nodes of bluedynamics/node  *)
(* that a user can observe, and the effect of every write operation on it. *)
(*                                                                         *)
(* Tokens are strings.  A node is a token in DOMAIN st.kids, every other   *)
(* value token is plain ("CLS" is a plain value which is a class).         *)
(*                                                                         *)
(* C  (configuration)                                                      *)
(*   C.f[n]   features of node n: [ord, val, ref, life, sp, ins, al]       *)
(*            ord: ordered storage    val: only nodes allowed as children  *)
(*            ref: uuid references    life: lifecycle notification         *)
(*            sp: nodespaces          ins: insert/swap supported           *)
(*            al: attributes container notifying "modified" of its owner   *)
(*   C.sk     reserved (nodespace) keys                                    *)
(*   C.frozen plain values which can take no name and parent               *)
(*   C.prov[n] interfaces and classes of node n                            *)
(*                                                                         *)
(* st (state)                                                              *)
(*   kids[n]  sequence of <<key, value>>                                   *)
(*   name[n], par[n]   location                                            *)
(*   uuid[n]  uuid                                                         *)
(*   spc[n]   nodespaces, sequence of <<reserved key, node>>               *)
(*   own[n]   the node whose index table n uses                            *)
(*   tab[n]   index table created by n: set of <<uuid, node>>              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NONE == "NONE"

---------------------------------------------------------------------------
(* association sequences *)
Pos(s, k) == LET I == {i \in 1..Len(s) : s[i][1] = k}
             IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(s, k) == Pos(s, k) # 0
At(s, k) == s[Pos(s, k)][2]
Put(s, k, v) == LET p == Pos(s, k)
                IN  IF p # 0 THEN [s EXCEPT ![p] = <<k, v>>]
                    ELSE Append(s, <<k, v>>)
Drop(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
InsAt(s, p, e) == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s))
Keys(s) == [i \in 1..Len(s) |-> s[i][1]]
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

---------------------------------------------------------------------------
(* structure *)
Nodes(st) == DOMAIN st.kids
IsNode(st, v) == v \in Nodes(st)
NodeKids(st, n) == {st.kids[n][i][2] : i \in 1..Len(st.kids[n])} \cap Nodes(st)
Holders(st, n) == {m \in Nodes(st) : n \in NodeKids(st, m)}
Places(st, n) == {<<m, i>> \in Nodes(st) \X (1..64) :
                    i <= Len(st.kids[m]) /\ st.kids[m][i][2] = n}
RECURSIVE Sub(_, _)
Sub(st, n) == {n} \cup UNION {Sub(st, c) : c \in NodeKids(st, n)}
\* the tree of n in terms of references
RefHolders(C, st, n) == {m \in Holders(st, n) : C.f[m].ref}
RECURSIVE Top(_, _, _)
Top(C, st, n) == LET H == RefHolders(C, st, n)
                 IN  IF H = {} THEN n ELSE Top(C, st, CHOOSE h \in H : TRUE)
Comp(C, st, n) == IF C.f[n].ref THEN Sub(st, Top(C, st, n)) ELSE {n}
SpHolders(st, n) == {m \in Nodes(st) :
                       \E i \in 1..Len(st.spc[m]) : st.spc[m][i][2] = n}
RECURSIVE Above(_, _)          \* n and everything that contains it
Above(st, n) == {n} \cup UNION {Above(st, h) :
                                  h \in Holders(st, n) \cup SpHolders(st, n)}
Uuids(st, S) == {st.uuid[m] : m \in S}
IsSp(C, k) == k \in C.sk
\* located: really stored where its location says
Located(st, n) == /\ st.par[n] \in Nodes(st)
                  /\ \/ Has(st.kids[st.par[n]], st.name[n])
                         /\ At(st.kids[st.par[n]], st.name[n]) = n
                     \/ Has(st.spc[st.par[n]], st.name[n])
                         /\ At(st.spc[st.par[n]], st.name[n]) = n

---------------------------------------------------------------------------
(* results: next state, outcome <<"ok"|"err", ...>>, notifications *)
R(st, out, ev) == [st |-> st, out |-> out, ev |-> ev]
Ok(st, ev) == R(st, <<"ok">>, ev)
Err(st, e) == R(st, <<"err", e>>, <<>>)
Ev(t, o, p, k, vis) == [t |-> t, o |-> o, p |-> p, k |-> k, vis |-> vis]
AddedEv(C, st, n, k, v) ==
    IF C.f[n].life THEN <<Ev("added", v, n, k, TRUE)>>
    ELSE IF C.f[n].al THEN <<Ev("modified", st.par[n], NONE, NONE, TRUE)>>
    ELSE <<>>
RemovedEv(C, st, n, k, v, t) ==
    IF C.f[n].life THEN <<Ev(t, v, n, k, FALSE)>>
    ELSE IF C.f[n].al THEN <<Ev("modified", st.par[n], NONE, NONE, TRUE)>>
    ELSE <<>>

(* index tables, maintained step by step as the implementation does *)
Entries(st, S) == {<<st.uuid[m], m>> : m \in S}
Take(st, S, o) ==         \* the nodes S leave their table for table o
    [st EXCEPT !.tab = [t \in DOMAIN @ |->
                          IF t = o THEN @[t] \cup Entries(st, S)
                          ELSE @[t] \ Entries(st, S)],
               !.own = [m \in DOMAIN @ |-> IF m \in S THEN o ELSE @[m]]]
Split(st, v) ==           \* subtree v becomes a tree of its own
    LET S == Sub(st, v) IN
    [st EXCEPT !.tab = [t \in DOMAIN @ |->
                          IF t = v THEN (@[t] \cap Entries(st, S)) \cup Entries(st, S)
                          ELSE @[t] \ Entries(st, S)],
               !.own = [m \in DOMAIN @ |-> IF m \in S THEN v ELSE @[m]]]
\* a table is named by one of its nodes: rename if the naming node leaves
Rename(st, v) ==
    LET S == Sub(st, v)
        o == st.own[v]
        rest == {m \in Nodes(st) : st.own[m] = o} \ S
    IN IF o \notin S \/ rest = {} THEN st
       ELSE LET r == CHOOSE m \in rest : TRUE
            IN [st EXCEPT !.tab[r] = st.tab[o], !.tab[o] = {},
                          !.own = [m \in DOMAIN @ |-> IF @[m] = o THEN r ELSE @[m]]]
Unindex(C, st, n, v) ==
    IF C.f[n].ref /\ IsNode(st, v) THEN Split(Rename(st, v), v) ELSE st
Index(C, st, n, v) ==
    IF C.f[n].ref /\ IsNode(st, v) /\ st.own[v] # st.own[n]
    THEN Take(st, {m \in Nodes(st) : st.own[m] = st.own[v]}, st.own[n])
    ELSE st

---------------------------------------------------------------------------
(* single item writes *)
Adopted(st, n, k, v) ==
    IF IsNode(st, v) THEN [st EXCEPT !.name[v] = k, !.par[v] = n] ELSE st

Resident(st, n, k, v) == Has(st.kids[n], k) /\ At(st.kids[n], k) = v

Clash(C, st, n, v) ==     \* uuids of v's subtree already used in n's tree
    /\ C.f[n].ref /\ IsNode(st, v)
    /\ Uuids(st, Sub(st, v)) \cap Uuids(st, Comp(C, st, n)) # {}

Set(C, st, n, k, v) ==
    IF C.f[n].val /\ ~IsNode(st, v) THEN Err(st, "ValueError")
    ELSE IF C.f[n].sp /\ IsSp(C, k) THEN
        IF v \in C.frozen THEN Err(st, "any")
        ELSE Ok([Adopted(st, n, k, v) EXCEPT !.spc[n] = Put(@, k, v)], <<>>)
    ELSE IF ~Resident(st, n, k, v) /\ Clash(C, st, n, v) THEN Err(st, "ValueError")
    ELSE LET old == IF Has(st.kids[n], k) THEN At(st.kids[n], k) ELSE NONE
             s1 == IF old # NONE /\ old # v THEN Unindex(C, st, n, old) ELSE st
             s2 == Index(C, s1, n, v)
             s3 == [s2 EXCEPT !.kids[n] = Put(@, k, v)]
         IN Ok(Adopted(s3, n, k, v), AddedEv(C, st, n, k, v))

Del(C, st, n, k, t) ==
    IF C.f[n].sp /\ IsSp(C, k) THEN
        IF ~Has(st.spc[n], k) THEN Err(st, "KeyError")
        ELSE Ok([st EXCEPT !.spc[n] = Drop(@, k)], <<>>)
    ELSE IF ~Has(st.kids[n], k) THEN Err(st, "KeyError")
    ELSE LET v == At(st.kids[n], k)
             s1 == Unindex(C, st, n, v)
         IN Ok([s1 EXCEPT !.kids[n] = Drop(@, k)], RemovedEv(C, st, n, k, v, t))

(* placing a named node at position p of n *)
Insert(C, st, n, v, p) ==
    LET k == st.name[v] IN
    IF k = NONE THEN Err(st, "ValueError")
    ELSE IF C.f[n].ref /\ st.uuid[v] \in Uuids(st, Comp(C, st, n)) THEN Err(st, "KeyError")
    ELSE IF Has(st.kids[n], k) THEN Err(st, "KeyError")
    ELSE IF C.f[n].sp /\ IsSp(C, k) THEN Err(st, "ValueError")
    ELSE IF p = 0 THEN Err(st, "ValueError")
    ELSE IF Clash(C, st, n, v) THEN Err(st, "ValueError")
    ELSE LET s1 == Index(C, st, n, v)
             s2 == [s1 EXCEPT !.kids[n] = InsAt(@, p, <<k, v>>)]
         IN Ok(Adopted(s2, n, k, v), AddedEv(C, st, n, k, v))
\* position of child r in n, 0 if r is no child
PosOf(st, n, r) == LET I == {i \in 1..Len(st.kids[n]) : st.kids[n][i][2] = r}
                   IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE

Swap(st, n, a, b) ==
    LET i == PosOf(st, n, a)  j == PosOf(st, n, b)
    IN IF i = 0 \/ j = 0 THEN Err(st, "any")
       ELSE IF i = j THEN Err(st, "either")      \* rejected or not, no effect
       ELSE Ok([st EXCEPT !.kids[n] = [@ EXCEPT ![i] = st.kids[n][j],
                                                ![j] = st.kids[n][i]]], <<>>)

SetUuid(C, st, n, u) ==
    IF \E m \in Comp(C, st, n) : m # n /\ st.uuid[m] = u THEN Err(st, "ValueError")
    ELSE Ok([st EXCEPT !.uuid[n] = u,
                       !.tab[st.own[n]] = (@ \ {<<st.uuid[n], n>>}) \cup {<<u, n>>}],
            <<>>)

(* creation of a fresh node under token n *)
New(C, st, n, k, u, p) ==
    Ok([st EXCEPT !.kids[n] = <<>>, !.name[n] = k, !.par[n] = p, !.spc[n] = <<>>,
                  !.uuid[n] = u,
                  !.tab = [t \in DOMAIN @ |-> IF t = n THEN {<<u, n>>}
                                              ELSE @[t] \ {<<st.uuid[n], n>>}],
                  !.own[n] = n],
       IF C.f[n].life THEN <<Ev("created", n, p, k, FALSE)>> ELSE <<>>)

---------------------------------------------------------------------------
(* many item writes: sequences of single item writes, stopping at an error *)
RECURSIVE SetAll(_, _, _, _, _)
SetAll(C, st, n, items, ev) ==
    IF items = <<>> THEN Ok(st, ev)
    ELSE LET r == Set(C, st, n, items[1][1], items[1][2])
         IN IF r.out[1] = "err" THEN R(r.st, r.out, ev)
            ELSE SetAll(C, r.st, n, Tail(items), ev \o r.ev)
RECURSIVE DelAll(_, _, _, _, _)
DelAll(C, st, n, ks, ev) ==
    IF ks = <<>> THEN Ok(st, ev)
    ELSE LET r == Del(C, st, n, ks[1], "removed")
         IN DelAll(C, r.st, n, Tail(ks), ev \o r.ev)

With(r, v) == IF r.out[1] = "ok" THEN [r EXCEPT !.out = <<"ok">> \o v] ELSE r

---------------------------------------------------------------------------
(* the operations.  op.o is the name; unused fields are absent.            *)
Apply(C, st, op) ==
    LET n == op.n IN
    CASE op.o = "set"        -> Set(C, st, n, op.k, op.v)
      [] op.o = "del"        -> Del(C, st, n, op.k, "removed")
      [] op.o = "detach"     ->
            IF Has(st.kids[n], op.k)
            THEN With(Del(C, st, n, op.k, "detached"), <<At(st.kids[n], op.k)>>)
            ELSE Err(st, "KeyError")
      [] op.o = "pop"        ->
            IF Has(st.kids[n], op.k)
            THEN With(Del(C, st, n, op.k, "removed"), <<At(st.kids[n], op.k)>>)
            ELSE IF op.d = NONE THEN Err(st, "KeyError")
            ELSE R(st, <<"ok", op.d>>, <<>>)
      [] op.o = "popitem"    ->
            \* op.k: the key an unordered node chose, NONE if it failed
            LET s == st.kids[n]
                k == IF C.f[n].ord \/ ~Has(s, op.k) THEN s[Len(s)][1] ELSE op.k
            IN IF s = <<>> THEN Err(st, "KeyError")
               ELSE With(Del(C, st, n, k, "removed"), <<k, At(s, k)>>)
      [] op.o = "clear"      -> DelAll(C, st, n, Keys(st.kids[n]), <<>>)
      [] op.o = "update"     -> SetAll(C, st, n, op.items, <<>>)
      [] op.o = "setdefault" ->
            IF C.f[n].sp /\ IsSp(C, op.k) THEN
                IF Has(st.spc[n], op.k) THEN R(st, <<"ok", At(st.spc[n], op.k)>>, <<>>)
                ELSE With(Set(C, st, n, op.k, op.v), <<op.v>>)
            ELSE IF Has(st.kids[n], op.k)
                 THEN R(st, <<"ok", At(st.kids[n], op.k)>>, <<>>)
                 ELSE With(Set(C, st, n, op.k, op.v), <<op.v>>)
      [] op.o = "insfirst"   -> Insert(C, st, n, op.v, 1)
      [] op.o = "inslast"    -> Insert(C, st, n, op.v, Len(st.kids[n]) + 1)
      [] op.o = "insbefore"  -> Insert(C, st, n, op.v, PosOf(st, n, op.r))
      [] op.o = "insafter"   ->
            LET p == PosOf(st, n, op.r)
            IN Insert(C, st, n, op.v, IF p = 0 THEN 0 ELSE p + 1)
      [] op.o = "swap"       -> Swap(st, n, op.v, op.r)
      [] op.o = "setuuid"    -> SetUuid(C, st, n, op.k)
      [] op.o = "rename"     -> Ok([st EXCEPT !.name[n] = op.k], <<>>)
      [] op.o = "new"        -> New(C, st, n, op.k, op.u, op.r)
      \* a constructor call which fails, of the class of n
      [] op.o = "newbad"     -> Err(st, "any")
      [] op.o = "attrs"      -> \* attributes container of n, made at first access
            IF Has(st.spc[n], "__attrs__")
            THEN R(st, <<"ok", At(st.spc[n], "__attrs__")>>, <<>>)
            ELSE R([Adopted(st, n, "__attrs__", op.v)
                      EXCEPT !.spc[n] = Put(@, "__attrs__", op.v)], <<"ok", op.v>>, <<>>)
      [] op.o = "nop"        -> Ok(st, <<>>)

---------------------------------------------------------------------------
(* The domain of the properties: operations the specification speaks about *)
AddDomain(C, st, n, k, v) ==
    \/ ~IsNode(st, v) /\ (v \in C.frozen \/ ~(C.f[n].sp /\ IsSp(C, k)))
    \/ IsNode(st, v) /\ IF C.f[n].ref /\ ~(C.f[n].sp /\ IsSp(C, k))
       THEN /\ SpHolders(st, v) = {}
            /\ v \notin Above(st, n) \/ v \in Comp(C, st, n)
            /\ Holders(st, v) = {} \/ v \in Comp(C, st, n)
       ELSE v \notin Above(st, n)
RECURSIVE AllDomain(_, _, _, _)
AllDomain(C, st, n, items) ==
    IF items = <<>> THEN TRUE
    ELSE
       /\ AddDomain(C, st, n, items[1][1], items[1][2])
       /\ LET r == Set(C, st, n, items[1][1], items[1][2])
          IN r.out[1] = "ok" => AllDomain(C, r.st, n, Tail(items))
\* a child can be referred to while it bears the name it is stored under
RefDomain(st, n, r) == LET p == PosOf(st, n, r)
                       IN  p # 0 => st.kids[n][p][1] = st.name[r]
InDomain(C, st, op) ==
    LET n == op.n IN
    CASE op.o \in {"set", "setdefault"} -> AddDomain(C, st, n, op.k, op.v)
      [] op.o = "update" -> AllDomain(C, st, n, op.items)
      [] op.o \in {"insfirst", "inslast", "insbefore", "insafter"} ->
            /\ C.f[n].ins /\ IsNode(st, op.v)
            /\ AddDomain(C, st, n, NONE, op.v)
            /\ C.f[n].ref \/ Holders(st, op.v) = {} \/ n \in Holders(st, op.v)
            /\ op.o \in {"insbefore", "insafter"} => RefDomain(st, n, op.r)
      [] op.o = "swap" ->
            /\ C.f[n].ins
            /\ \A x \in {op.v, op.r} : RefDomain(st, n, x)
                 /\ (PosOf(st, n, x) # 0 \/ ~Has(st.kids[n], st.name[x]))
      [] op.o = "setuuid" -> C.f[n].ref
      [] op.o = "rename" -> ~Located(st, n) /\ Holders(st, n) = {}
      [] op.o = "new" -> Holders(st, n) = {} /\ st.kids[n] = <<>>
      [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Reads *)
RECURSIVE PathOf(_, _)
PathOf(st, n) == IF st.par[n] = NONE THEN <<st.name[n]>>
                 ELSE Append(PathOf(st, st.par[n]), st.name[n])
RECURSIVE RootOf(_, _)
RootOf(st, n) == IF st.par[n] = NONE THEN n ELSE RootOf(st, st.par[n])
RECURSIVE Placed(_, _, _)      \* every node up to the root is located
Placed(st, n, depth) ==
    \/ st.par[n] = NONE
    \/ depth > 0 /\ Located(st, n) /\ Placed(st, st.par[n], depth - 1)
RECURSIVE Walk(_, _, _, _)
Walk(C, st, n, p) ==
    IF p = <<>> THEN n
    ELSE IF ~IsNode(st, n) THEN "ANY"     \* depends on the plain value
    ELSE IF C.f[n].sp /\ IsSp(C, p[1])
         THEN IF Has(st.spc[n], p[1]) THEN Walk(C, st, At(st.spc[n], p[1]), Tail(p)) ELSE "ERR"
    ELSE IF Has(st.kids[n], p[1]) THEN Walk(C, st, At(st.kids[n], p[1]), Tail(p)) ELSE "ERR"
RECURSIVE Acquire(_, _, _, _)
Acquire(C, st, n, i) ==
    IF st.par[n] = NONE THEN NONE
    ELSE IF i \in C.prov[st.par[n]] THEN st.par[n]
    ELSE Acquire(C, st, st.par[n], i)
SortKids(C, s) == SortSeq(s, LAMBDA a, b : C.rank[a[1]] < C.rank[b[1]])
RECURSIVE Repr(_, _, _, _)
RECURSIVE ReprKids(_, _, _, _)
ReprKids(C, st, s, d) ==
    IF s = <<>> THEN <<>>
    ELSE (IF IsNode(st, s[1][2]) THEN Repr(C, st, s[1][2], d)
          ELSE <<ToString(d), "V", s[1][1]>>)
         \o ReprKids(C, st, Tail(s), d)
Repr(C, st, n, d) ==
    <<ToString(d), "N", st.name[n]>> \o
    ReprKids(C, st, IF C.f[n].ord THEN st.kids[n] ELSE SortKids(C, st.kids[n]), d + 1)

Flat(s) == [i \in 1..(2 * Len(s)) |-> s[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
B(b) == IF b THEN <<"T">> ELSE <<"F">>
Found(C, st, n, u) == LET S == {m \in Comp(C, st, n) : st.uuid[m] = u}
                   IN IF S = {} THEN NONE ELSE CHOOSE m \in S : TRUE
GetItem(C, st, n, k) ==
    IF C.f[n].sp /\ IsSp(C, k)
    THEN IF Has(st.spc[n], k) THEN <<"ok", At(st.spc[n], k)>> ELSE <<"KeyError">>
    ELSE IF Has(st.kids[n], k) THEN <<"ok", At(st.kids[n], k)>> ELSE <<"KeyError">>

\* answer to query q in state st: <<comparison, expected>>
\*   comparison "=": equal   "#": equal as bags   "-": out of domain
Ans(C, st, q) ==
    LET n == q.n
        s == st.kids[n]
        c == IF C.f[n].ord THEN "=" ELSE "#"
        placed == Placed(st, n, 64)
        u == st.uuid IN
    CASE q.q \in {"keys", "iter", "iterkeys"} -> <<c, Keys(s)>>
      [] q.q = "rkeys" -> <<IF C.f[n].ord THEN "=" ELSE "-", Reverse(Keys(s))>>
      [] q.q \in {"values", "itervalues"} -> <<c, Vals(s)>>
      [] q.q \in {"items", "iteritems"} -> <<c, Flat(s)>>
      [] q.q = "len" -> <<"=", <<ToString(Len(s))>> >>
      [] q.q \in {"contains", "has_key"} ->
            <<"=", B(GetItem(C, st, n, q.a)[1] = "ok")>>
      [] q.q = "get" -> LET g == GetItem(C, st, n, q.a) IN
                        <<"=", IF g[1] = "ok" THEN <<g[2]>> ELSE <<"DEF">> >>
      [] q.q = "getn" -> LET g == GetItem(C, st, n, q.a) IN
                        <<"=", IF g[1] = "ok" THEN <<g[2]>> ELSE <<"NONE">> >>
      [] q.q = "getitem" -> <<"=", GetItem(C, st, n, q.a)>>
      [] q.q = "getattr" -> LET g == GetItem(C, st, n, q.a) IN
                        <<"=", IF g[1] = "ok" THEN g ELSE <<"AttributeError">> >>
      [] q.q = "path" -> <<IF placed THEN "=" ELSE "-",
                           IF placed THEN PathOf(st, n) ELSE <<>> >>
      [] q.q = "root" -> <<IF placed THEN "=" ELSE "-",
                           <<IF placed THEN RootOf(st, n) ELSE NONE>> >>
      [] q.q = "home" -> \* path below the root, looked up again from the root
                         <<IF placed THEN "=" ELSE "-", <<n>> >>
      [] q.q = "walk" -> LET x == Walk(C, st, n, q.p)
                         IN  <<IF x = "ANY" THEN "-" ELSE "=", <<x>> >>
      [] q.q = "acquire" -> <<IF placed THEN "=" ELSE "-",
                              <<IF placed THEN Acquire(C, st, n, q.a) ELSE NONE>> >>
      [] q.q = "filtered" ->
            <<c, SelectSeq(Vals(s), LAMBDA v : IsNode(st, v) /\ q.a \in C.prov[v])>>
      [] q.q = "repr" -> <<IF placed THEN "=" ELSE "-", Repr(C, st, n, 0)>>
      [] q.q = "node" -> <<IF C.f[n].ref THEN "=" ELSE "-", <<Found(C, st, n, q.a)>> >>
      [] q.q = "indexed" -> <<IF C.f[n].ref THEN "=" ELSE "-",
                              B(Found(C, st, n, q.a) # NONE)>>
      [] q.q = "table" -> LET S == IF C.f[n].ref THEN Comp(C, st, n) ELSE {} IN
            <<IF C.f[n].ref THEN "#" ELSE "-", Flat(SetToSeq({<<st.uuid[m], m>> : m \in S}))>>
      [] q.q = "space" -> <<"=", <<IF Has(st.spc[n], q.a) THEN At(st.spc[n], q.a) ELSE NONE>> >>
      [] q.q = "attrs" -> <<"=", <<IF Has(st.spc[n], "__attrs__")
                                     THEN At(st.spc[n], "__attrs__") ELSE NONE>> >>
      [] q.q = "spaces" -> <<"#", Keys(st.spc[n])>>
      [] OTHER -> <<"-", <<>> >>

QOk(C, st, q) ==
    LET e == Ans(C, st, q) IN
    \/ e[1] = "-"
    \/ e[1] = "=" /\ q.r = e[2]
    \/ e[1] = "#" /\ SameBag(q.r, e[2])
=============================================================================
