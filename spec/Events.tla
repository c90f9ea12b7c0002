------------------------------ MODULE Events ------------------------------
(* Event dispatchers.                                                      *)
(* C.cls[c]    [bases |-> <<class..>>, decl |-> <<event..>>]               *)
(* C.insts     instance -> class                                           *)
(* C.evs, C.subs   events and subscribers                                  *)
(* C.eff[s]    what subscriber s does when it is called:                   *)
(*             [o |-> "none" | "bind" | "unbind" | "dispatch" | "register" *)
(*                    | "raise", e |-> event or "", s |-> subscriber or ""]*)
(* st.reg[i]   events registered on instance i                             *)
(* st.sub[i][e]  its subscribers, in the order of binding                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Insts(C) == DOMAIN C.insts
RECURSIVE Known(_, _)
Known(C, c) == ToSet(C.cls[c].decl) \cup
               UNION {Known(C, C.cls[c].bases[j]) : j \in 1..Len(C.cls[c].bases)}
KnownOn(C, st, i) == Known(C, C.insts[i]) \cup st.reg[i]
Init0(C) == {[reg |-> [i \in Insts(C) |-> {}],
              sub |-> [i \in Insts(C) |-> [e \in C.evs |-> <<>>]]]}
Res(st, out) == {[st |-> st, out |-> out]}

Without(q, s) == SelectSeq(q, LAMBDA x : x # s)
Bind1(st, i, e, s) == IF \E j \in 1..Len(st.sub[i][e]) : st.sub[i][e][j] = s THEN st
                      ELSE [st EXCEPT !.sub[i][e] = Append(@, s)]
\* a missing argument is "*"
Unbind(C, st, i, e, s) ==
    [st EXCEPT !.sub[i] = [x \in C.evs |->
        IF e # "*" /\ x # e THEN @[x]
        ELSE IF s = "*" THEN <<>> ELSE Without(@[x], s)]]
Register(st, i, e) == [st EXCEPT !.reg[i] = @ \cup {e}]

\* binding of several subscribers with one call
RECURSIVE BindAll(_, _, _, _)
BindAll(C, st, i, items) ==
    IF items = <<>> THEN [st |-> st, ok |-> TRUE]
    ELSE IF items[1][1] \notin KnownOn(C, st, i) THEN [st |-> st, ok |-> FALSE]
    ELSE BindAll(C, Bind1(st, i, items[1][1], items[1][2]), i, Tail(items))

(* calls the subscribers of list; what they do happens at once, but does   *)
(* not change the list.  The result says whether one of them raised.       *)
RECURSIVE Run(_, _, _, _, _, _)
Run(C, st, i, list, tag, calls) ==
    IF list = <<>> THEN [st |-> st, calls |-> calls, ok |-> TRUE]
    ELSE LET s == Head(list)
             f == C.eff[s]
             done == Append(calls, <<s, tag>>)
         IN CASE f.o = "none" -> Run(C, st, i, Tail(list), tag, done)
              [] f.o = "bind" -> IF f.e \in KnownOn(C, st, i)
                                 THEN Run(C, Bind1(st, i, f.e, f.s), i, Tail(list), tag, done)
                                 ELSE [st |-> st, calls |-> done, ok |-> FALSE]
              [] f.o = "unbind" -> Run(C, Unbind(C, st, i, f.e, f.s), i, Tail(list), tag, done)
              [] f.o = "register" -> Run(C, Register(st, i, f.e), i, Tail(list), tag, done)
              [] f.o = "raise" -> [st |-> st, calls |-> done, ok |-> FALSE]
              [] f.o = "dispatch" ->
                   LET r == Run(C, st, i, st.sub[i][f.e], "nested", done)
                   IN IF r.ok THEN Run(C, r.st, i, Tail(list), tag, r.calls) ELSE r

Step(C, st, op) ==
    CASE op.o = "new" -> Res([reg |-> [st.reg EXCEPT ![op.i] = {}],
                              sub |-> [st.sub EXCEPT ![op.i] = [e \in C.evs |-> <<>>]]], <<"ok">>)
      [] op.o = "register" -> Res(Register(st, op.i, op.e), <<"ok">>)
      [] op.o = "bind" ->
           LET r == BindAll(C, st, op.i, op.items) IN
           IF r.ok THEN Res(r.st, <<"ok">>)
           ELSE Res(r.st, <<"err", "rejected">>) \cup Res(st, <<"err", "rejected">>)
      [] op.o = "unbind" -> Res(Unbind(C, st, op.i, op.e, op.s), <<"ok">>)
      [] op.o = "dispatch" ->
           LET r == Run(C, st, op.i, st.sub[op.i][op.e], op.tag, <<>>)
           IN Res(r.st, <<IF r.ok THEN "ok" ELSE "err", r.calls>>)

\* dispatching subscribers are bound to events of C.outer only and dispatch
\* other events: nested dispatches end
Dispatching(C) == {s \in C.subs : C.eff[s].o = "dispatch"}
InDomain(C, st, op) ==
    CASE op.o = "bind" -> \A j \in 1..Len(op.items) : op.items[j][2] \in Dispatching(C) =>
                             op.items[j][1] \in C.outer
      [] OTHER -> TRUE
=============================================================================
