----------------------------- MODULE MCCache -----------------------------
(* Exhaustive model of Cache for small node sets; prints its transitions.  *)
EXTENDS Cache, Json
CONSTANTS WHAT      \* which configurations
VARIABLES cid, st
vars == <<cid, st>>

One == [a |-> {"a.0", "a.1"}]
Two == [a |-> {"a.0"}, b |-> {"b.0"}]
Mk(slots, order, cache, kind, load, ext, fail, vals, mix) ==
    [slots |-> slots, order |-> order, cache |-> cache, kind |-> kind, load |-> load,
     ext |-> ext, fail |-> fail, vals |-> vals, mix |-> mix]
O1 == <<"a.0", "a.1">>
O2 == <<"a.0", "b.0">>
Quick == <<
    Mk(One, O1, "T", "own", "T", "T", "T", {"v", "w"}, "nodify"),
    Mk(One, O1, "T", "plain", "T", "T", "T", {"v", "w"}, "nodify"),
    Mk(One, O1, "T", "plain", "F", "T", "F", {"v", "w"}, "adopt"),
    Mk(One, O1, "T", "vol", "F", "T", "F", {"v", "w"}, "adopt"),
    Mk(One, O1, "T", "fac", "F", "T", "F", {"v"}, "adopt"),
    Mk(One, O1, "F", "plain", "F", "T", "F", {"v"}, "adopt"),
    Mk(One, O1, "F", "vol", "F", "T", "F", {"v"}, "dict"),
    Mk(One, O1, "F", "fac", "F", "T", "F", {"v"}, "adopt"),
    Mk(One, O1, "F", "own", "T", "T", "T", {"v"}, "nodify"),
    Mk(Two, O2, "T", "own", "T", "T", "F", {"v"}, "nodify"),
    Mk(Two, O2, "T", "vol", "F", "T", "F", {"v"}, "dict"),
    Mk(Two, O2, "T", "fac", "F", "T", "F", {"v"}, "adopt"),
    Mk(One, O1, "T", "plain", "F", "T", "F", {"v"}, "life"),
    Mk(One, O1, "T", "own", "T", "T", "F", {"v", "N"}, "nodify"),
    Mk(One, O1, "T", "vol", "F", "T", "F", {"v", "N"}, "adopt"),
    Mk(One, O1, "T", "plain", "T", "T", "T", {"v"}, "life"),
    Mk(One, O1, "T", "plain", "T", "T", "T", {"v"}, "outlife"),
    Mk(One, O1, "T", "vol", "F", "T", "F", {"v"}, "outlife"),
    Mk(One, O1, "T", "plain", "F", "F", "F", {"v"}, "outref"),
    Mk(One, O1, "T", "vol", "F", "F", "F", {"v"}, "outreflife"),
    Mk(One, O1, "T", "vol", "F", "F", "F", {"v"}, "ref"),
    Mk(One, O1, "T", "plain", "F", "F", "F", {"v"}, "ref"),
    Mk(One, O1, "T", "fac", "F", "F", "F", {"v"}, "reflife") >>
Confs == Quick

Ops(C) ==
    LET X == Slots(C)  N == DOMAIN C.slots IN
         [o : {"read", "get", "contains", "del", "pop", "detach", "inv", "readfail",
               "delfail", "dellate"}, x : X]
    \cup [o : {"set", "setdefault", "setfail", "setlate"}, x : X, v : C.vals]
    \cup [o : {"ext"}, x : X, v : C.vals \cup {"none"}]
    \cup [o : {"values", "keys", "popitem", "clear", "invall", "invunknown"}, n : N]

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ st' = r.st
               /\ cid' = cid
               /\ PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* what the property demands of the specification *)
Cc == Confs[cid]
\* without outside changes the cache shows the backend
Coherent == \A x \in Slots(Cc) : st.cach[x] # "none" /\ st.same[x] = "T"
                => st.cach[x] = st.back[x]
NoCache == Cc.cache = "F" => \A x \in Slots(Cc) : st.cach[x] = "none"
\* a read right after a read returns the same object without asking the backend
Repeat == Cc.cache = "T" => \A x \in Slots(Cc) :
            LET r == Read(Cc, st, x, TRUE)
                q == Read(Cc, r.st, x, TRUE)
            IN r.val # "none" => q.val = r.val /\ q.new \in {"same", "-"} /\ q.loads = "0"
\* after an invalidation the backend is asked
Fresh == Cc.cache = "T" => \A x \in Slots(Cc) :
            \A r \in Step(Cc, st, [o |-> "inv", x |-> x]) :
               LET q == Read(Cc, r.st, x, TRUE)
               IN /\ q.val # "none" => q.val = (IF r.st.back[x] = "none" THEN "F" ELSE r.st.back[x])
                  /\ \A y \in Slots(Cc) \ {x} : r.st.cach[y] = st.cach[y]
\* absent keys are not cached
Gain == \A x \in Slots(Cc) : st.cach[x] = "none" /\ st.back[x] = "none" /\ Cc.kind # "fac" =>
            LET r == Read(Cc, st, x, TRUE)
                q == Read(Cc, Ext(r.st, x, "v"), x, TRUE)
            IN q.val = "v"
=============================================================================
