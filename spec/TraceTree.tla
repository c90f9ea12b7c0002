----------------------------- MODULE TraceTree -----------------------------
(* Validates traces recorded from the real code against Tree.              *)
(* traces.ndjson: one trace per line, [C, s0, steps].  A step is           *)
(*   o     the operation, as in Tree!Apply                                 *)
(*   out   the observed outcome      ev   the observed notifications       *)
(*   s     the observed state after it                                     *)
(*   q     answers of the real code to some reads afterwards               *)
(*   fault "none", "armed" (not reached) or "fired" (the backend raised)   *)
(* Deviations are printed as "M <trace> <step> <clauses>"; the trace is    *)
(* not followed further.  Complete traces are printed as "D".              *)
EXTENDS Tree, Json
VARIABLES tid, i, st
vars == <<tid, i, st>>

Traces == ndJsonDeserialize("traces.ndjson")
Conf == [t \in 1..Len(Traces) |->
           LET c == Traces[t].C IN
           [f |-> c.f, sk |-> ToSet(c.sk), frozen |-> ToSet(c.frozen), rank |-> c.rank,
            prov |-> [n \in DOMAIN c.f |-> ToSet(c.prov[n])]]]
Full(s) == [kids |-> s.kids, name |-> s.name, par |-> s.par, uuid |-> s.uuid, spc |-> s.spc,
            own |-> [n \in DOMAIN s.kids |-> n],
            tab |-> [n \in DOMAIN s.kids |-> {<<s.uuid[n], n>>}]]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ st = Full(Traces[tid].s0)

---------------------------------------------------------------------------
(* what may happen: a set of results *)
FirstItems(C, s, op) ==
    CASE op.o = "update" ->
           {[SetAll(C, s, op.n, SubSeq(op.items, 1, j), <<>>) EXCEPT !.out = <<"err", "any">>]
              : j \in 0..Len(op.items) - 1}
      [] OTHER -> {}
Allowed(C, s, x) ==
    LET op == x.o  r == Apply(C, s, op) IN
    IF x.fault = "fired" /\ x.out[1] = "err" THEN
        IF op.o = "update" THEN FirstItems(C, s, op)
        ELSE IF op.o = "clear" THEN
            \* the children still there were not reached
            LET gone == SelectSeq(Keys(s.kids[op.n]), LAMBDA k : ~Has(x.s.kids[op.n], k))
            IN {[DelAll(C, s, op.n, gone, <<>>) EXCEPT !.out = <<"err", "any">>]}
        ELSE {Err(s, "any")}
    ELSE {r}

OutOk(op, exp, got) ==
    IF exp[1] = "ok" THEN got = exp
    ELSE IF exp[2] = "either" THEN got[1] = "ok" \/ got[2] # "HANG"
    ELSE /\ got[1] = "err"
         /\ \/ exp[2] = "any" /\ got[2] # "HANG"
            \/ exp[2] = got[2]
            \/ /\ op.o \in {"insfirst", "inslast", "insbefore", "insafter", "swap", "setuuid"}
               /\ got[2] \in {"KeyError", "ValueError"}
EvOk(op, exp, got) == IF op.o = "clear" THEN SameBag(exp, got) ELSE exp = got

KidsOk(C, s, t, n) == IF C.f[n].ord THEN s[n] = t[n] ELSE SameBag(s[n], t[n])
NPl(s, v) == <<{<<m, k>> \in Nodes(s) \X (DOMAIN Conf[tid].rank) :
                   Has(s.kids[m], k) /\ At(s.kids[m], k) = v},
               {<<m, k>> \in Nodes(s) \X Conf[tid].sk :
                   Has(s.spc[m], k) /\ At(s.spc[m], k) = v}>>
ParFree(s, t, v) == ~Located(t, v) /\ NPl(s, v) # NPl(t, v)

Clauses(C, s, x, r) ==
    LET o == x.s  t == r.st  N == Nodes(s) IN
      (IF OutOk(x.o, r.out, x.out) THEN {} ELSE {"out"})
 \cup (IF EvOk(x.o, r.ev, x.ev) THEN {} ELSE {"events"})
 \cup (IF \A n \in N : KidsOk(C, o.kids, t.kids, n) THEN {}
       ELSE IF \A n \in N : SameBag(o.kids[n], t.kids[n]) THEN {"order"} ELSE {"kids"})
 \cup (IF \A n \in N : o.name[n] = t.name[n] THEN {} ELSE {"name"})
 \cup (IF \A n \in N : o.par[n] = t.par[n] \/ ParFree(s, t, n) THEN {} ELSE {"par"})
 \cup (IF \A n \in N : ~C.f[n].ref \/ o.uuid[n] = t.uuid[n] THEN {} ELSE {"uuid"})
 \cup (IF \A n \in N : ~C.f[n].sp \/ SameBag(o.spc[n], t.spc[n]) THEN {} ELSE {"spc"})

Next ==
    LET T == Traces[tid]  C == Conf[tid]  x == T.steps[i] IN
    /\ i <= Len(T.steps)
    /\ IF "broken" \in DOMAIN x.s THEN
          /\ PrintT("M " \o ToJson(<<tid, i, <<"kids">>, "state cannot be read", x.o>>))
          /\ FALSE
       ELSE IF ~InDomain(C, st, x.o) THEN
          /\ PrintT("X " \o ToJson(<<tid, i, x.o>>))
          /\ FALSE
       ELSE
          LET A == Allowed(C, st, x)
              good == {r \in A : Clauses(C, st, x, r) = {}} IN
          IF good = {} THEN
             LET r == CHOOSE r \in A : \A r2 \in A :
                        Cardinality(Clauses(C, st, x, r)) <= Cardinality(Clauses(C, st, x, r2))
                 cs == Clauses(C, st, x, r)
                 failed == r.out[1] = "err"
             IN /\ PrintT("M " \o ToJson(<<tid, i,
                     SetToSeq({IF failed /\ c # "out" THEN "fail:" \o c ELSE c : c \in cs}),
                     [out |-> r.out, ev |-> r.ev], x.o>>))
                /\ FALSE
          ELSE
             LET r == CHOOSE r \in good : TRUE
                 n == [r.st EXCEPT !.par = [v \in DOMAIN @ |->
                          IF x.s.par[v] # @[v] /\ ParFree(st, r.st, v)
                          THEN x.s.par[v] ELSE @[v]]]
                 badq == SelectSeq(x.q, LAMBDA q : ~QOk(C, n, q))
             IN IF badq # <<>> THEN
                   /\ PrintT("M " \o ToJson(<<tid, i,
                        SetToSeq({(IF r.out[1] = "err" THEN "fail:q:" ELSE "q:") \o badq[j].q
                                    : j \in 1..Len(badq)}),
                        [q |-> badq[1], e |-> Ans(C, n, badq[1])], x.o>>))
                   /\ FALSE
                ELSE /\ st' = n
                     /\ i' = i + 1
                     /\ tid' = tid
                     /\ i = Len(T.steps) => PrintT("D " \o ToJson(<<tid, i>>))
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
(* the properties of the specification, on the states of the recorded runs *)
IndexExact == \A n \in Nodes(st) : Conf[tid].f[n].ref =>
                st.tab[st.own[n]] = {<<st.uuid[m], m>> : m \in Comp(Conf[tid], st, n)}
UuidUnique == \A n \in Nodes(st) : Conf[tid].f[n].ref => \A a, b \in Comp(Conf[tid], st, n) :
                a # b => st.uuid[a] # st.uuid[b]
KeysUnique == \A n \in Nodes(st) : \A a, b \in 1..Len(st.kids[n]) :
                 st.kids[n][a][1] = st.kids[n][b][1] => a = b
=============================================================================
