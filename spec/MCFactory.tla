---------------------------- MODULE MCFactory ----------------------------
(* Exhaustive model of Factory for small declarations.                     *)
EXTENDS Factory, Json
VARIABLES cid, st
vars == <<cid, st>>
D(kind, decl) == [kind |-> kind, decl |-> decl]
K2 == {"k0", "k1"}
Confs == <<
  [cls |-> [A |-> D("fac", <<<<"k1", "f1">>, <<"k0", "f0">>>>)], insts |-> [a |-> "A"],
   keys |-> K2 \cup {"k2"}, vals |-> {"v"}, inv |-> "T", how |-> "plain"],
  [cls |-> [A |-> D("fac", <<<<"k0", "f0">>>>), B |-> D("fac", <<<<"k1", "f1">>>>)],
   insts |-> [a |-> "A", b |-> "B"], keys |-> K2, vals |-> {"v"}, inv |-> "T", how |-> "sub"],
  [cls |-> [A |-> D("fac", <<<<"k0", "f0">>>>)], insts |-> [a |-> "A", b |-> "A"],
   keys |-> K2, vals |-> {"v"}, inv |-> "F", how |-> "dict"],
  [cls |-> [A |-> D("fac", <<>>)], insts |-> [a |-> "A", b |-> "A"],
   keys |-> {"k0"}, vals |-> {"v"}, inv |-> "F", how |-> "plain"],
  [cls |-> [A |-> D("fac", <<<<"k0", "f0">>>>), B |-> D("fac", <<<<"k0", "f1">>>>)],
   insts |-> [a |-> "A", b |-> "B"], keys |-> {"k0"}, vals |-> {"v"}, inv |-> "T",
   how |-> "inst"],
  [cls |-> [A |-> D("fac", <<<<"k0", "fN">>, <<"k1", "f1">>>>)], insts |-> [a |-> "A"],
   keys |-> K2, vals |-> {"v"}, inv |-> "T", how |-> "plain"],
  [cls |-> [A |-> D("fixed", <<<<"k1", "f1">>, <<"k0", "f0">>>>)], insts |-> [a |-> "A", b |-> "A"],
   keys |-> K2 \cup {"k2"}, vals |-> {"v"}, inv |-> "F", how |-> "tree"],
  [cls |-> [A |-> D("fixed", <<<<"k1", "f1">>, <<"k0", "f0">>>>)], insts |-> [a |-> "A"],
   keys |-> K2 \cup {"k2"}, vals |-> {"v"}, inv |-> "F", how |-> "plain"],
  [cls |-> [A |-> D("fixed", <<<<"k0", "f0">>>>), B |-> D("fixed", <<<<"k1", "f0">>>>)],
   insts |-> [a |-> "A", b |-> "A", c |-> "B"], keys |-> K2, vals |-> {"v"}, inv |-> "F",
   how |-> "sub"],
  [cls |-> [A |-> D("fixed", <<>>)], insts |-> [a |-> "A"],
   keys |-> {"k0"}, vals |-> {"v"}, inv |-> "F", how |-> "plain"] >>

Ops(C) ==
       [o : {"read", "get", "contains", "del", "pop", "detach", "inv", "readfail"},
        i : Insts(C), k : C.keys]
    \cup [o : {"set", "setdefault"}, i : Insts(C), k : C.keys, v : C.vals]
    \cup [o : {"keys", "values", "first", "popitem", "clear", "invall"}, i : Insts(C), k : {""}]

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ st' = r.st
               /\ cid' = cid
               /\ PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Cc == Confs[cid]
\* children are created by their own factory only
Own == \A i \in Insts(Cc), k \in Cc.keys : st.kid[i][k] \notin Cc.vals \cup {"none"} =>
          k \in Declared(Cc, i) /\ st.kid[i][k] = Fac(Cc, i, k)
\* fixed children never change
FixedStay == \A i \in Insts(Cc) : Fixed(Cc, i) => \A k \in Cc.keys :
          st.kid[i][k] = IF k \in Declared(Cc, i) THEN Fac(Cc, i, k) ELSE "none"
\* a second read creates nothing
Once == \A i \in Insts(Cc), k \in Cc.keys :
          LET r == Read(Cc, st, i, k)  q == Read(Cc, r.st, i, k)
          IN q.calls = <<>> /\ (r.val # "none" => q.new = IF q.val = "fN" THEN "-" ELSE "same")
\* one instance does not touch another
Separate == [][\E i \in Insts(Cc) : \A j \in Insts(Cc) \ {i} :
                  st'.kid[j] = st.kid[j] /\ st'.seen[j] = st.seen[j]]_st
=============================================================================
