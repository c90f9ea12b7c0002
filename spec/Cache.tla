------------------------------ MODULE Cache ------------------------------
(* Child caching and invalidation (behaviors Cache, Invalidate,            *)
(* VolatileStorageInvalidate) over a backend.                              *)
(*                                                                         *)
(* A slot is a key of a node; C.slots[n] are the slots of node n.          *)
(* C.cache   "T"/"F": caching mixed in                                     *)
(* C.kind    what invalidate does: "own" (nothing to the backend),         *)
(*           "plain" (deletes), "vol" (drops the stored child),            *)
(*           "fac" (like "vol", and a factory creates missing children)    *)
(* C.load    "T": every load creates a new object, "F": the stored object  *)
(* C.ext     "T": the backend may change by itself                         *)
(* C.vals    values that can be stored; the factory creates "F"            *)
(* C.fail    "T": the backend may raise                                    *)
(* "N" is the value None, which has no identity                            *)
(* C.mix     other behaviors mixed in                                      *)
(*                                                                         *)
(* st.back[x]   value in the backend or "none"                             *)
(* st.cach[x]   value in the cache or "none"                               *)
(* st.cs[x], st.bs[x]  "T" iff the cached / stored object is the object    *)
(*              that was returned by the last read of x                    *)
(* st.same[x]   "T" iff the cached object is the stored one                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Slots(C) == UNION {C.slots[n] : n \in DOMAIN C.slots}
Node(C, x) == CHOOSE n \in DOMAIN C.slots : x \in C.slots[n]
Init0(C) == {[back |-> [x \in Slots(C) |-> "none"], cach |-> [x \in Slots(C) |-> "none"],
              cs |-> [x \in Slots(C) |-> "F"], bs |-> [x \in Slots(C) |-> "F"],
              same |-> [x \in Slots(C) |-> "F"]]}

---------------------------------------------------------------------------
Res(st, out) == {[st |-> st, out |-> out]}
Uncache(st, x) == [st EXCEPT !.cach[x] = "none", !.cs[x] = "F", !.same[x] = "F"]
Store(st, x, v) == [Uncache(st, x) EXCEPT !.back[x] = v, !.bs[x] = "F"]
\* the backend changes, the cached object stays
Ext(st, x, v) == [st EXCEPT !.back[x] = v, !.bs[x] = "F", !.same[x] = "F"]

(* a read: [st, val, new, loads]; seen: the caller gets the object *)
Read(C, st, x, seen) ==
    LET s == IF seen THEN "T" ELSE "F" IN
    IF st.cach[x] # "none" THEN
        [st |-> [st EXCEPT !.cs[x] = IF seen THEN "T" ELSE @,
                           !.bs[x] = IF seen /\ st.same[x] = "T" THEN "T" ELSE @],
         val |-> st.cach[x],
         new |-> IF st.cach[x] = "N" THEN "-" ELSE IF st.cs[x] = "T" THEN "same" ELSE "new",
         loads |-> "0"]
    ELSE IF st.back[x] = "none" /\ C.kind # "fac" THEN
        [st |-> st, val |-> "none", new |-> "", loads |-> ""]
    ELSE
        LET made == st.back[x] = "none"
            v == IF made THEN "F" ELSE st.back[x]
            new == IF v = "N" THEN "-"
                   ELSE IF C.load = "T" \/ made \/ st.bs[x] = "F" THEN "new" ELSE "same"
            nbs == IF C.load = "T" THEN "F" ELSE IF seen THEN "T" ELSE IF made THEN "F" ELSE st.bs[x]
            n1 == [st EXCEPT !.back[x] = v, !.bs[x] = nbs]
            n2 == IF C.cache = "F" THEN n1
                  ELSE [n1 EXCEPT !.cach[x] = v,
                                  !.cs[x] = IF seen THEN "T" ELSE nbs,
                                  !.same[x] = IF C.load = "T" THEN "F" ELSE "T"]
        IN [st |-> n2, val |-> v, new |-> new,
            loads |-> IF C.cache = "F" THEN "-" ELSE IF C.kind = "fac" THEN "+" ELSE "1"]

\* reads of several slots, one after the other
RECURSIVE ReadAll(_, _, _, _)
ReadAll(C, st, xs, acc) ==
    IF xs = <<>> THEN [st |-> st, out |-> acc]
    ELSE LET r == Read(C, st, Head(xs), TRUE)
         IN ReadAll(C, r.st, Tail(xs), Append(acc, <<Head(xs), r.val, r.new, r.loads>>))

Present(C, st, n) == IF C.kind = "fac" THEN C.slots[n]
                     ELSE {x \in C.slots[n] : st.back[x] # "none"}
SortedSlots(C, S) == SelectSeq(C.order, LAMBDA x : x \in S)

Vol(C) == C.kind \in {"vol", "fac"}
KeyErr == <<"err", "KeyError">>

\* deletion; a rejected deletion may drop the cached object
Del(C, st, x, out) ==
    IF st.back[x] = "none"
    THEN {[st |-> st, out |-> KeyErr], [st |-> Uncache(st, x), out |-> KeyErr]}
    ELSE Res(Store(st, x, "none"), out)
RECURSIVE DelAll(_, _)
DelAll(st, xs) == IF xs = {} THEN st
                  ELSE LET x == CHOOSE y \in xs : TRUE
                       IN DelAll(Store(st, x, "none"), xs \ {x})
RECURSIVE UncacheAll(_, _)
UncacheAll(st, xs) == IF xs = {} THEN st
                      ELSE LET x == CHOOSE y \in xs : TRUE
                           IN UncacheAll(Uncache(st, x), xs \ {x})
\* invalidation drops stored children without changing the others
Drop(st, xs) == [st EXCEPT !.back = [x \in DOMAIN @ |-> IF x \in xs THEN "none" ELSE @[x]],
                           !.bs = [x \in DOMAIN @ |-> IF x \in xs THEN "F" ELSE @[x]]]

---------------------------------------------------------------------------
Step(C, st, op) ==
  CASE op.o \in {"read", "get"} ->
        LET r == Read(C, st, op.x, TRUE)
        IN IF r.val = "none"
           THEN Res(r.st, IF op.o = "get" THEN <<"default">> ELSE KeyErr)
           ELSE Res(r.st, <<"ok", r.val, r.new, r.loads>>)
    [] op.o = "contains" ->
        LET r == Read(C, st, op.x, FALSE)
        IN Res(r.st, <<"ok", IF r.val = "none" THEN "F" ELSE "T">>)
    [] op.o = "values" ->
        LET r == ReadAll(C, st, SortedSlots(C, Present(C, st, op.n)), <<>>)
        IN Res(r.st, <<"ok", r.out>>)
    [] op.o = "keys" -> Res(st, <<"ok", SortedSlots(C, Present(C, st, op.n))>>)
    [] op.o = "set" -> Res(Store(st, op.x, op.v), <<"ok">>)
    [] op.o = "setdefault" ->
        LET r == Read(C, st, op.x, TRUE)
        IN IF r.val = "none" THEN Res(Store(r.st, op.x, op.v), <<"ok", op.v, IF op.v = "N" THEN "-" ELSE "default">>)
           ELSE Res(r.st, <<"ok", r.val, r.new>>)
    [] op.o = "del" -> Del(C, st, op.x, <<"ok">>)
    [] op.o \in {"pop", "detach"} ->
        LET r == Read(C, st, op.x, TRUE)
        IN IF r.val = "none" THEN Res(r.st, KeyErr)
           ELSE Del(C, r.st, op.x, <<"ok", r.val, r.new>>)
    [] op.o = "popitem" ->
        IF Present(C, st, op.n) = {} THEN Res(st, KeyErr)
        ELSE {LET r == Read(C, st, x, TRUE)
              IN [st |-> Store(r.st, x, "none"), out |-> <<"ok", x, r.val, r.new>>]
                : x \in Present(C, st, op.n)}
    [] op.o = "clear" -> Res(DelAll(st, Present(C, st, op.n)), <<"ok">>)
    [] op.o = "inv" ->
        LET s == Uncache(st, op.x) IN
        IF C.kind = "own" THEN Res(s, <<"ok">>)
        ELSE IF C.kind # "fac" /\ st.back[op.x] = "none" THEN Res(s, KeyErr)
        ELSE Res(Drop(s, {op.x}), <<"ok">>)
    [] op.o = "invunknown" ->       \* a key no node knows
        Res(st, IF C.kind = "own" THEN <<"ok">> ELSE KeyErr)
    [] op.o = "invall" ->
        LET s == UncacheAll(st, C.slots[op.n]) IN
        IF C.kind = "own" THEN Res(s, <<"ok">>)
        ELSE Res(Drop(s, C.slots[op.n]), <<"ok">>)
    [] op.o = "ext" -> Res(Ext(st, op.x, op.v), <<"ok">>)
    \* the backend raises
    [] op.o = "readfail" ->
        IF st.cach[op.x] # "none"
        THEN LET r == Read(C, st, op.x, TRUE) IN Res(r.st, <<"ok", r.val, r.new, r.loads>>)
        ELSE Res(st, <<"err", "OSError">>)
    [] op.o \in {"setfail", "delfail"} ->
        {[st |-> st, out |-> <<"err", "OSError">>],
         [st |-> Uncache(st, op.x), out |-> <<"err", "OSError">>]}

    \* the backend does what it was asked and raises
    [] op.o = "setlate" -> Res(Store(st, op.x, op.v), <<"err", "OSError">>)
    [] op.o = "dellate" -> Res(Store(st, op.x, "none"), <<"err", "OSError">>)

InDomain(C, st, op) ==
  CASE op.o \in {"ext"} -> C.ext = "T" /\ (C.load = "T" => op.v # "F")
    [] op.o \in {"readfail", "setfail", "setlate"} -> C.fail = "T"
    [] op.o \in {"delfail", "dellate"} -> C.fail = "T" /\ st.back[op.x] # "none"
    \* children are created by reads while deleting
    [] op.o \in {"clear", "popitem", "del", "pop", "detach"} -> C.kind # "fac" \/
            op.o \in {"pop", "detach"} \/
            (op.o = "del" /\ (st.back[op.x] # "none" \/ C.mix \in {"adopt", "dict"}))
    [] OTHER -> TRUE
=============================================================================
