------------------------------ MODULE MCCopy ------------------------------
EXTENDS Copy, Json
CONSTANTS EMIT, MORE
VARIABLES cid, st
vars == <<cid, st>>
K(attrs, values, ref, aware, deep) ==
    [attrs |-> attrs, values |-> values, ref |-> ref, aware |-> aware, deep |-> deep]
Cls == [O |-> K("F", "F", "F", "F", "F"), P |-> K("F", "T", "F", "F", "F"),
        M |-> K("T", "T", "F", "F", "F"), A |-> K("T", "F", "T", "F", "F"),
        U |-> K("F", "T", "F", "T", "T"), V |-> K("F", "T", "F", "T", "F"),
        W |-> K("T", "T", "F", "T", "T")]
Base(use, names, akeys, vals, slots, docs, size, uuids, kinds) ==
    [cls |-> Cls, use |-> use, names |-> names, akeys |-> akeys, vals |-> vals, slots |-> slots,
     docs |-> docs, size |-> size, uuids |-> uuids, kinds |-> kinds]
L == <<"l", 0>>
S == <<"s">>
U == <<"u">>
Confs == <<
  \* shapes
  Base({"P"}, {"a", "b"}, {}, {S, U}, {"s", "t"}, {}, 2 + MORE, 0,
       {"new", "add", "set", "del", "deepcopy", "copy", "graft"}),
  \* pickle
  Base({"O"}, {"a", "b"}, {}, {}, {"s", "t"}, {"d"}, 2, 0,
       {"new", "add", "del", "dump", "load", "lock", "copy"}),
  \* uuids
  Base({"U", "V"}, {"a"}, {}, {}, {"s", "t"}, {}, 2, 4 + MORE,
       {"new", "add", "del", "deepcopy", "copy", "lock"}),
  Base({"U", "P"}, {"a"}, {}, {S}, {"s", "t"}, {}, 3, 3 + MORE,
       {"new", "add", "set", "deepcopy"}),
  \* references
  Base({"A"}, {"a", "b"}, {}, {}, {"s", "t"}, {}, 2 + MORE, 3 + MORE,
       {"new", "add", "del", "deepcopy", "copy", "graft"}),
  Base({"A", "P"}, {"a"}, {}, {}, {"s", "t"}, {"d"}, 2, 2,
       {"new", "add", "del", "deepcopy", "dump", "load", "copy"}),
  \* mutable values
  Base({"M"}, {"a"}, {"x"}, {L}, {"s", "t"}, {}, 2, 0,
       {"new", "set", "attr", "mutattr", "mutval", "deepcopy", "copy"}),
  Base({"M"}, {"a"}, {"x"}, {L, S, U}, {"s", "t"}, {"d"}, 1, 0,
       {"new", "attr", "mutattr", "dump", "load", "lock"}) >>

RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {IF t.k[i].c = "=" THEN {}
                               ELSE {<<t.k[i].n>> \o p : p \in Paths(t.k[i])} : i \in 1..Len(t.k)}
Ops(C, s0) ==
  LET P(s) == IF s0.t[s] = NoTree THEN {} ELSE Paths(s0.t[s])
      On(o) == {x \in C.kinds : x = o}
  IN UNION {
         [o : On("new"), s : {s}, c : C.use, n : {"a"}]
    \cup [o : On("add"), s : {s}, p : P(s), c : C.use, n : C.names]
    \cup [o : On("set"), s : {s}, p : P(s), n : C.names, v : C.vals]
    \cup [o : On("del") \cup On("mutval"), s : {s}, p : P(s), n : C.names]
    \cup [o : On("attr"), s : {s}, p : P(s), k : C.akeys, v : C.vals \cup {NoVal}]
    \cup [o : On("mutattr"), s : {s}, p : P(s), k : C.akeys]
    \cup [o : On("lock") \cup On("copy"), s : {s}, p : P(s)]
    \cup [o : On("deepcopy"), s : {s}, to : C.slots]
    \cup [o : On("graft"), s : {s}, to : C.slots, p : UNION {P(x) : x \in C.slots}, n : C.names]
    \cup [o : On("dump"), s : {s}, d : C.docs]
    \cup [o : On("load"), to : {s}, d : C.docs]
    : s \in C.slots}

RECURSIVE Short(_)
Short(t) == /\ \A x \in DOMAIN t.a : t.a[x][1] = "l" => t.a[x][2] <= 2
            /\ t.v[1] = "l" => t.v[2] <= 2
            /\ \A i \in 1..Len(t.k) : Short(t.k[i])
Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ EMIT => PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ EMIT => PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C, st) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ \A s \in C.slots : Size(r.st.t[s]) <= C.size /\ Short(r.st.t[s])
               /\ r.st.u <= C.uuids
               /\ st' = r.st
               /\ cid' = cid
               /\ EMIT => PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
Trees == {s \in C0.slots : st.t[s] # NoTree}
\* a copy is equal up to the uuids, and these are fresh
Faithful == \A s \in Trees : LET r == DeepCopy(C0, st.t[s], st.u) IN
    /\ Norm(r.t) = Norm(st.t[s])
    /\ C0.cls[st.t[s].c].aware = "T" => r.t.u > st.u
    /\ (\A c \in C0.use : C0.cls[c].aware = "T" /\ C0.cls[c].deep = "T") =>
          /\ Uuids(r.t) \cap Uuids(st.t[s]) = {}
          /\ Cardinality(Uuids(r.t)) = Cardinality(Uuids(st.t[s]))
\* in trees with references no uuid occurs twice
RECURSIVE Count(_)
Count(t) == IF t.c = "=" THEN 0 ELSE (IF t.u = 0 THEN 0 ELSE 1) +
               FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1..Len(t.k) |-> Count(t.k[i])])
Unique == \A s \in Trees : AllRef(C0, st.t[s]) => Count(st.t[s]) = Cardinality(Uuids(st.t[s]))
\* a step changes one tree (graft: two)
Independent == [][Cardinality({s \in C0.slots : st'.t[s] # st.t[s]}) <= 2]_st
=============================================================================
