----------------------------- MODULE MCSerial -----------------------------
EXTENDS Serial, Json
CONSTANTS EMIT, MORE
VARIABLES cid, st
vars == <<cid, st>>
At(x) == <<"atom", x>>
Atoms == [n |-> "json", i0 |-> "json", s1 |-> "json", u |-> "mark", g1 |-> "mark", c1 |-> "ref"]
Cls == [O |-> [attrs |-> "F", cust |-> "F", ref |-> "F", own |-> <<>>, init |-> <<>>],
        Z |-> [attrs |-> "F", cust |-> "F", ref |-> "F", own |-> <<"O", "a">>, init |-> <<>>],
        J |-> [attrs |-> "T", cust |-> "F", ref |-> "T", own |-> <<>>,
               init |-> << <<"x", At("i0")>> >>],
        M |-> [attrs |-> "T", cust |-> "F", ref |-> "F", own |-> <<>>, init |-> <<>>],
        A |-> [attrs |-> "T", cust |-> "F", ref |-> "T", own |-> <<>>, init |-> <<>>],
        K |-> [attrs |-> "T", cust |-> "T", ref |-> "T", own |-> <<>>, init |-> <<>>]]
\* values up to depth 2
V0 == {At(x) : x \in {"n", "i0", "s1", "u", "g1", "c1"}}
V1 == V0 \cup {<<"list", <<>>>>, <<"dict", <<>>>>} \cup {<<"list", <<v>>>> : v \in V0}
         \cup {<<"dict", << <<"k", v>> >>>> : v \in V0}
         \cup {<<"list", <<At("i0"), At("u")>>>>, <<"dict", << <<"k", At("g1")>>, <<"l", At("s1")>> >>>>}
V2 == V1 \cup {<<"list", <<At("n"), v>>>> : v \in V1}
         \cup {<<"dict", << <<"k", v>> >>>> : v \in V1}
Base(cls, names, akeys, vals, slots, docs, size, kinds) ==
    [cls |-> Cls, use |-> cls, names |-> names, akeys |-> akeys, atoms |-> Atoms, vals |-> vals,
     slots |-> slots, docs |-> docs, size |-> size, kinds |-> kinds]
Confs == <<
  \* shapes
  Base({"O"}, {"NONE", "a", "b"}, {}, {}, {"s"}, {"d"}, 3 + MORE,
       {"new", "add", "ser", "serlist", "des", "deslist", "desroot", "simple"}),
  \* classes
  Base({"O", "M"}, {"a", "b"}, {}, {}, {"s"}, {"d"}, 2 + MORE,
       {"new", "add", "del", "ser", "serlist", "des", "desroot", "simple"}),
  \* children made by the constructor
  Base({"O", "Z"}, {"a", "b"}, {}, {}, {"s"}, {"d"}, 3 + MORE,
       {"new", "add", "del", "ser", "des", "desroot"}),
  \* values
  Base({"A"}, {"a"}, {"x"}, IF MORE > 0 THEN V2 ELSE V1 \cup
          {<<"list", <<At("n"), v>>>> : v \in V1 \ V0} \cup {<<"dict", << <<"k", v>> >>>> : v \in V1 \ V0},
       {"s"}, {"d"}, 1, {"new", "attr", "ser", "des", "simple"}),
  Base({"A"}, {"a"}, {"x", "y"}, {At("u")}, {"s"}, {"d"}, 2,
       {"new", "add", "attr", "ser", "des", "desroot", "serlist", "simple"}),
  \* custom serializers
  Base({"K"}, {"a"}, {"x"}, {At("n"), At("g1"), <<"dict", << <<"k", At("g1")>> >>>>}, {"s"}, {"d"},
       1 + MORE, {"new", "add", "prop", "ser", "des", "desroot"}),
  \* attributes set by the constructor
  Base({"A", "J"}, {"a"}, {"x"}, {At("u"), <<"list", <<>>>>}, {"s"}, {"d"}, 2,
       {"new", "add", "attr", "ser", "des", "desroot"}),
  \* two trees
  Base({"O"}, {"a", "b"}, {}, {}, {"s", "t"}, {"d"}, 2,
       {"new", "add", "del", "ser", "serlist", "des", "desroot"}) >>

RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {{<<t.k[i].n>> \o p : p \in Paths(t.k[i])} : i \in 1..Len(t.k)}
Arg(C) == {NoVal} \cup C.vals
Ops(C, s0) ==
  LET P(s) == IF s0.t[s] = NoTree THEN {} ELSE Paths(s0.t[s])
      On(o) == {x \in C.kinds : x = o}
  IN UNION {
         [o : On("new"), s : {s}, c : C.use, n : C.names, v : Arg(C)]
    \cup [o : On("add"), s : {s}, p : P(s), c : C.use, n : C.names \ {"NONE"}, v : Arg(C)]
    \cup [o : On("del"), s : {s}, p : P(s), n : C.names]
    \cup [o : On("attr"), s : {s}, p : P(s), k : C.akeys, 
              v : C.vals \cup {NoVal}]
    \cup [o : On("prop"), s : {s}, p : P(s), v : C.vals]
    \cup [o : On("ser") \cup On("serlist"), s : {s}, p : P(s), d : C.docs]
    \cup [o : On("simple"), s : {s}, p : P(s), i : {"T", "F"}]
    \cup [o : On("des"), s : {s}, d : C.docs]
    \cup [o : On("deslist"), d : C.docs]
    \cup [o : On("desroot"), s : {s}, p : P(s), d : C.docs]
    : s \in C.slots}

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ EMIT => PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ EMIT => PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C, st) :
          /\ InDomain(C, st, op) = TRUE
          /\ op.o = "attr" => op.v = NoVal \/ Sub(st.t[op.s], op.p).a[op.k] = NoVal
          /\ \E r \in Step(C, st, op) :
               /\ \A s \in C.slots : Size(r.st.t[s]) <= C.size
               /\ st' = r.st
               /\ cid' = cid
               /\ EMIT => PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
RECURSIVE Own(_)
Own(t) == /\ C0.cls[t.c].own # <<>> => t.k # <<>> /\ t.k[1].n = C0.cls[t.c].own[2]
          /\ \A x \in C0.akeys : InitAttr(C0, t.c, x) # NoVal => t.a[x] # NoVal
          /\ \A i \in 1..Len(t.k) : Own(t.k[i])
RoundTrip == \A s \in C0.slots : st.t[s] # NoTree /\ Own(st.t[s]) =>
               Dec(C0, Enc(C0, st.t[s])) = st.t[s]
ValueTrip == \A v \in C0.vals : DecV(C0, EncV(C0, v)) = v
\* encoding a decoded document gives the document
DocTrip == \A d \in C0.docs : st.d[d] # NoDoc /\ st.d[d][1] = "obj" /\ "Z" \notin C0.use /\ "J" \notin C0.use =>
              Enc(C0, Dec(C0, st.d[d])) = st.d[d]
=============================================================================
