---------------------------- MODULE MCEvAttr ----------------------------
(* Exhaustive model of EvAttr: values, bindings, scopes, threads.          *)
EXTENDS EvAttr, Json
CONSTANTS DEPTH
VARIABLES cid, st
vars == <<cid, st>>
A(def, always, own, store) == [def |-> def, always |-> always, own |-> own, store |-> store]
F(o, n, v, th) == [o |-> o, n |-> n, v |-> v, th |-> th]
N == F("none", "", "", "")
T1 == {"t0"}
T2 == {"t0", "t1"}
Base(attrs, evs, subs, eff, insts, ths, scopes, vals, outer, bind) ==
    [attrs |-> attrs, evs |-> evs, subs |-> subs, eff |-> eff, insts |-> insts, ths |-> ths,
     scopes |-> scopes, vals |-> vals, outer |-> outer, bindable |-> bind]
Confs == <<
  \* values, notification on change
  Base([a |-> A("v0", "F", <<"o">>, "dict"), b |-> A("UNSET", "T", <<>>, "dict")], {},
       {"s", "o"}, [s |-> N, o |-> N], {"i"}, T1, [x |-> {"a"}], {"v0", "v1", "UNSET"}, {}, {"s"}),
  Base([a |-> A("UNSET", "F", <<"o">>, "attrs"), b |-> A("v0", "F", <<>>, "attrs")], {},
       {"s", "o"}, [s |-> N, o |-> N], {"i"}, T1, [x |-> {"*"}], {"v0", "v1", "UNSET"}, {}, {"s"}),
  \* two instances
  Base([a |-> A("v0", "F", <<"o">>, "dict")], {"e"}, {"s", "o"}, [s |-> N, o |-> N],
       {"i", "j"}, T1, [x |-> {"e"}], {"v0", "v1"}, {}, {"s"}),
  \* scopes and threads
  Base([a |-> A("v0", "T", <<"o">>, "dict")], {"e"}, {"s", "o"}, [s |-> N, o |-> N],
       {"i"}, T2, [x |-> {"*"}, y |-> {"a"}, z |-> {"a", "e"}], {"v1"}, {}, {"s"}),
  \* several own subscribers, order
  Base([a |-> A("v0", "F", <<"o", "p">>, "dict")], {}, {"s", "r", "o", "p"},
       [s |-> N, r |-> N, o |-> N, p |-> N], {"i"}, T1, [x |-> {"a"}], {"v0", "v1"}, {}, {"s", "r"}),
  \* subscribers which set, raise and work in the other thread
  Base([a |-> A("v0", "T", <<"o">>, "dict"), b |-> A("v0", "F", <<"p">>, "dict")], {},
       {"s", "o", "p"}, [s |-> N, o |-> F("set", "b", "v1", ""), p |-> N], {"i"}, T1,
       [x |-> {"a"}, y |-> {"b"}], {"v0", "v1"}, {"a"}, {"s"}),
  Base([a |-> A("v0", "T", <<"o", "p">>, "dict"), b |-> A("v0", "F", <<"p">>, "dict")], {},
       {"s", "o", "p"}, [s |-> N, o |-> F("set", "b", "v1", "t1"), p |-> N], {"i"}, T2,
       [x |-> {"*"}, y |-> {"b"}], {"v0"}, {"a"}, {"s"}),
  Base([a |-> A("v0", "F", <<"o", "p">>, "dict"), b |-> A("v0", "F", <<>>, "dict")], {},
       {"s", "o", "p"}, [s |-> N, o |-> N, p |-> F("raise", "", "", "")], {"i"}, T2,
       [x |-> {"a"}], {"v0", "v1"}, {"a"}, {"s"}),
  Base([a |-> A("v0", "T", <<"p">>, "attrs"), b |-> A("v0", "F", <<>>, "attrs")], {"e"},
       {"s", "r", "p"}, [s |-> N, r |-> F("dispatch", "e", "v1", ""), p |-> F("del", "b", "", "")],
       {"i"}, T1, [x |-> {"e"}], {"v1"}, {"a"}, {"s", "r"}),
  Base([a |-> A("v0", "T", <<"p">>, "dict")], {}, {"s", "r", "p"},
       [s |-> N, r |-> F("unbind", "a", "", ""), p |-> N],
       {"i"}, T1, [x |-> {"a"}], {"v1"}, {"a"}, {"s", "r"}) >>

Ops(C) ==
    LET I == C.insts  X == Names(C)  T == C.ths IN
         [o : {"set"}, t : T, i : I, n : Attrs(C), v : C.vals]
    \cup [o : {"del", "get", "stored"}, t : T, i : I, n : Attrs(C)]
    \cup [o : {"class"}, t : {"t0"}, n : Attrs(C)]
    \cup [o : {"method"}, t : T, i : I, n : Attrs(C), j : {1, 2}, v : {"v1"}]
    \cup [o : {"dispatch"}, t : T, i : I, n : X, v : {"v1"}]
    \cup [o : {"bind", "unbind"}, t : {"t0"}, i : I, n : X, s : C.bindable]
    \cup [o : {"create", "enter"}, t : T, x : DOMAIN C.scopes]
    \cup [o : {"exit", "abort"}, t : T]
    \cup [o : {"new"}, t : {"t0"}, i : I]

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ \A t \in C.ths : Len(r.st.open[t]) <= DEPTH
               /\ st' = r.st
               /\ cid' = cid
               /\ PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
\* without open scope everything is delivered, whatever other threads do
Delivered == \A t \in C0.ths, i \in C0.insts, a \in Attrs(C0), v \in C0.vals :
    LET r == Set(C0, st, t, i, a, v, <<>>) IN
    /\ r.st.val[i][a] = v \/ \E s \in C0.subs : C0.eff[s].o \in {"set", "del"}
    /\ st.open[t] = <<>> /\ v # Cur(C0, st, i, a) =>
          LET all == Calls(st, i, a, C0.attrs[a].own, v, t)
          IN (\A s \in C0.subs : C0.eff[s].o = "none") => r.calls = all
\* a scope suppresses what it names and nothing else
Scoped == \A t \in C0.ths, i \in C0.insts, n \in Names(C0) :
    LET r == Notify(C0, st, t, i, n, <<>>, "v1", <<>>) IN
    st.sub[i][n] # <<>> =>
      (r.calls = <<>>) = (\E j \in 1..Len(st.open[t]) :
                             C0.scopes[st.open[t][j]] \cap {n, "*"} # {})
\* leaving a scope restores what was before it
Restored == \A t \in C0.ths, x \in DOMAIN C0.scopes :
    \A r \in Step(C0, st, [o |-> "enter", t |-> t, x |-> x]) :
       \A q \in Step(C0, r.st, [o |-> "abort", t |-> t]) : q.st = st
\* other instances are not concerned
Separate == [][\E i \in C0.insts : \A j \in C0.insts \ {i} :
                 st'.val[j] = st.val[j] /\ st'.sub[j] = st.sub[j]]_st
=============================================================================
