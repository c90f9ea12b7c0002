---------------------------- MODULE MCEvents ----------------------------
(* Exhaustive model of Events for few classes, instances and subscribers.  *)
EXTENDS Events, Json
VARIABLES cid, st
vars == <<cid, st>>
K(bases, decl) == [bases |-> bases, decl |-> decl]
F(o, e, s) == [o |-> o, e |-> e, s |-> s]
N == F("none", "", "")
Confs == <<
  \* order of binding, several events
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1", "e2"}, subs |-> {"s0", "s1"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, s1 |-> N], how |-> "list", parts |-> "all"],
  \* three subscribers of one event
  [cls |-> [A |-> K(<<>>, <<"e0">>)], insts |-> [a |-> "A"],
   evs |-> {"e0"}, subs |-> {"s0", "s1", "s2"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, s1 |-> N, s2 |-> N], how |-> "list", parts |-> "all"],
  \* classes and instances
  [cls |-> [A |-> K(<<>>, <<"e0">>), B |-> K(<<"A">>, <<"e1">>), D |-> K(<<>>, <<>>)],
   insts |-> [a |-> "A", b |-> "B", d |-> "D"],
   evs |-> {"e0", "e1"}, subs |-> {"s0"}, outer |-> {"e0"},
   eff |-> [s0 |-> N], how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0">>), B |-> K(<<>>, <<"e1">>), D |-> K(<<"A", "B">>, <<>>)],
   insts |-> [a |-> "A", b |-> "B", d |-> "D"],
   evs |-> {"e0", "e1"}, subs |-> {"s0"}, outer |-> {"e0"},
   eff |-> [s0 |-> N], how |-> "attr", parts |-> "all"],
  \* declared far above, and by two bases of a base
  [cls |-> [A |-> K(<<>>, <<"e0">>), B |-> K(<<"A">>, <<>>), D |-> K(<<"B">>, <<"e1">>)],
   insts |-> [d |-> "D"],
   evs |-> {"e0", "e1"}, subs |-> {"s0"}, outer |-> {"e0"},
   eff |-> [s0 |-> N], how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0">>), B |-> K(<<>>, <<"e1">>), D |-> K(<<"A", "B">>, <<>>),
            G |-> K(<<"D">>, <<>>)],
   insts |-> [g |-> "G"],
   evs |-> {"e0", "e1", "e2"}, subs |-> {"s0"}, outer |-> {"e0"},
   eff |-> [s0 |-> N], how |-> "list", parts |-> "all"],
  \* two instances of one class
  [cls |-> [A |-> K(<<>>, <<"e0">>)], insts |-> [a |-> "A", b |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "s1"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, s1 |-> N], how |-> "none", parts |-> "all"],
  \* subscribers that change the bindings
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, r |-> F("unbind", "e0", "r")], how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, r |-> F("bind", "e0", "s0")], how |-> "attr", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> N, r |-> F("unbind", "*", "*")], how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> F("unbind", "e0", "*"), r |-> F("dispatch", "e1", "")],
   how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0", "e1">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> F("raise", "", ""), r |-> F("dispatch", "e1", "")],
   how |-> "list", parts |-> "all"],
  [cls |-> [A |-> K(<<>>, <<"e0">>)], insts |-> [a |-> "A"],
   evs |-> {"e0", "e1"}, subs |-> {"s0", "r"}, outer |-> {"e0"},
   eff |-> [s0 |-> F("bind", "e1", "s0"), r |-> F("register", "e1", "")],
   how |-> "list", parts |-> "all"] >>

Ops(C) ==
    LET I == Insts(C) IN
         [o : {"bind"}, i : I, items : [1..1 -> C.evs \X C.subs]]
    \cup [o : {"bind"}, i : I, items : {q \in [1..2 -> C.evs \X C.subs] : q[1][1] # q[2][1]}]
    \cup [o : {"unbind"}, i : I, e : C.evs \cup {"*"}, s : C.subs \cup {"*"}]
    \cup [o : {"dispatch"}, i : I, e : C.evs, tag : {"t0", "t1"}]
    \cup [o : {"register"}, i : I, e : C.evs]
    \cup [o : {"new"}, i : I]

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ st' = r.st
               /\ cid' = cid
               /\ PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
\* every subscriber is bound once, and only to known events
Unique == \A i \in Insts(C0), e \in C0.evs : \A j, k \in 1..Len(st.sub[i][e]) :
             st.sub[i][e][j] = st.sub[i][e][k] => j = k
OnlyKnown == \A i \in Insts(C0), e \in C0.evs : st.sub[i][e] # <<>> => e \in KnownOn(C0, st, i)
\* plain subscribers are called exactly as bound
Exact == (\A s \in C0.subs : C0.eff[s].o = "none") =>
           \A i \in Insts(C0), e \in C0.evs :
             LET r == Run(C0, st, i, st.sub[i][e], "t0", <<>>)
             IN r.st = st /\ r.calls = [j \in 1..Len(st.sub[i][e]) |-> <<st.sub[i][e][j], "t0">>]
\* one instance does not touch another
Separate == [][\E i \in Insts(C0) : \A j \in Insts(C0) \ {i} :
                 st'.sub[j] = st.sub[j] /\ st'.reg[j] = st.reg[j]]_st
=============================================================================
