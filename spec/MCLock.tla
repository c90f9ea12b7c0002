------------------------------ MODULE MCLock ------------------------------
EXTENDS Lock, Json
CONSTANTS EMIT, THREADS, DEPTH
VARIABLES cid, st
vars == <<cid, st>>
Ts == {"t1", "t2", "t3", "t4"}
Some(n) == {t \in Ts : \E i \in 1..n : t = <<"t1", "t2", "t3", "t4">>[i]}
Confs == <<
  [root |-> [a |-> "a", a1 |-> "a"], ths |-> Some(THREADS), many |-> 3],
  [root |-> [a |-> "a", a1 |-> "a", b |-> "b"], ths |-> Some(THREADS - 1), many |-> 2],
  [root |-> [a |-> "a", b |-> "b"], ths |-> Some(THREADS), many |-> 2] >>
A(C, t) == [t : {t}, a : {"want"}, n : Nodes(C), how : {""}]
           \cup [t : {t}, a : {"leave"}, n : {""}, how : {"return", "raise"}]
\* threads in a fixed order: the order of the acts has no meaning
Ops(C) ==
    LET all == UNION {A(C, t) : t \in C.ths} IN
         [o : {"par"}, acts : {<<x>> : x \in all}]
    \cup [o : {"par"}, acts : {<<x, y>> : x \in UNION {A(C, t) : t \in {"t1"}},
                                          y \in UNION {A(C, t) : t \in C.ths \ {"t1"}}}]
    \cup [o : {"par"}, acts : IF C.many < 3 THEN {} ELSE
            {<<x, y, z>> : x \in A(C, "t1"), y \in A(C, "t2"),
                           z \in {q \in A(C, "t3") : q.n # "a1"}}]
    \cup [o : {"join"}, n : Nodes(C), m : Nodes(C)]
    \cup [o : {"split"}, n : Nodes(C)]
Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ EMIT => PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ EMIT => PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ \A r \in Step(C, st, op) : \A t \in C.ths : Len(r.st.stk[t]) <= DEPTH
          /\ \E r \in Step(C, st, op) :
               /\ st' = r.st
               /\ cid' = cid
               /\ EMIT => PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
In(t, r) == \E i \in 1..Len(st.stk[t]) : st.stk[t][i] = r
Mutex == \A r \in Nodes(C0) : \A t, u \in C0.ths : In(t, r) /\ In(u, r) => t = u
Owner == \A r \in Nodes(C0) : \A t \in C0.ths : (st.own[r] = t) = In(t, r)
\* nobody waits for a tree which is free
NoLoss == \A t \in C0.ths : st.wait[t] # "" => st.own[st.wait[t]] \notin {"", t}
=============================================================================
