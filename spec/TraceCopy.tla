---------------------------- MODULE TraceCopy ----------------------------
(* Validates histories recorded from the real code against Copy.*)
EXTENDS Copy, Json
VARIABLES tid, i, st
vars == <<tid, i, st>>
Traces == ndJsonDeserialize("traces.ndjson")
Conf == [t \in 1..Len(Traces) |->
           LET c == Traces[t].C IN
           [c EXCEPT !.akeys = ToSet(@), !.slots = ToSet(@), !.docs = ToSet(@)]]
Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ st \in Init0(Conf[tid])
Next ==
    LET T == Traces[tid]  C == Conf[tid]  x == T.steps[i] IN
    /\ i <= Len(T.steps)
    /\ IF ~InDomain(C, st, x.op)
       THEN PrintT("X " \o ToJson(<<tid, i, x.op>>)) /\ FALSE
       ELSE LET A == Step(C, st, x.op)
                good == {r \in A : ToJson(r.out) = ToJson(x.out)}
            IN IF good = {}
               THEN /\ PrintT("M " \o ToJson(<<tid, i, x.op, x.out,
                                               SetToSeq({r.out : r \in A})>>))
                    /\ FALSE
               ELSE \E r \in good :
                      /\ st' = r.st
                      /\ i' = i + 1
                      /\ tid' = tid
                      /\ i = Len(T.steps) => PrintT("D " \o ToJson(<<tid, i>>))
Spec == Init /\ [][Next]_vars
=============================================================================
