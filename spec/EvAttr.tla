------------------------------ MODULE EvAttr ------------------------------
(* Event attributes and suppression of events, in several threads.         *)
(* C.attrs[a]  [def |-> value, always |-> "T"/"F", own |-> <<sub..>>,      *)
(*              store |-> where it is stored]                              *)
(* C.evs       other events        C.subs  subscribers                     *)
(* C.insts     instances           C.ths   threads                         *)
(* C.scopes[x] the events a suppression names, {"*"} for all               *)
(* C.vals      values              C.eff[s] what subscriber s does:        *)
(*     [o |-> "none" | "raise" | "set" | "dispatch" | "unbind" | "del",    *)
(*      n |-> attribute or event, v |-> value, th |-> thread or ""]        *)
(* st.val[i][a]   value or "none" (nothing stored)                         *)
(* st.sub[i][n]   bound subscribers of attribute or event n                *)
(* st.open[t]     the scopes thread t is in, outermost first               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Attrs(C) == DOMAIN C.attrs
Names(C) == Attrs(C) \cup C.evs
Init0(C) == {[val |-> [i \in C.insts |-> [a \in Attrs(C) |-> "none"]],
              sub |-> [i \in C.insts |-> [n \in Names(C) |-> <<>>]],
              open |-> [t \in C.ths |-> <<>>]]}
Res(st, out) == {[st |-> st, out |-> out]}
Cur(C, st, i, a) == IF st.val[i][a] = "none" THEN C.attrs[a].def ELSE st.val[i][a]
Suppressed(C, st, t, n) == \E j \in 1..Len(st.open[t]) :
    LET E == C.scopes[st.open[t][j]] IN n \in E \/ "*" \in E
Without(q, s) == SelectSeq(q, LAMBDA x : x # s)

Call(s, kind, i, v, t) == <<s, kind, i, v, t>>
Calls(st, i, n, own, v, t) ==
    [j \in 1..Len(own) |-> Call(own[j], "own", i, v, t)] \o
    [j \in 1..Len(st.sub[i][n]) |-> Call(st.sub[i][n][j], "bound", i, v, t)]

RECURSIVE Run(_, _, _, _), Notify(_, _, _, _, _, _, _, _), Set(_, _, _, _, _, _, _),
          Delete(_, _, _, _, _, _)
(* calls the subscribers of todo one after the other *)
Run(C, st, todo, done) ==
    IF todo = <<>> THEN [st |-> st, calls |-> done, ok |-> TRUE]
    ELSE LET c == Head(todo)
             f == C.eff[c[1]]
             i == c[3]
             t == IF f.th = "" THEN c[5] ELSE f.th
             d == Append(done, c)
             r == CASE f.o = "none" -> [st |-> st, calls |-> d, ok |-> TRUE]
                    [] f.o = "raise" -> [st |-> st, calls |-> d, ok |-> FALSE]
                    [] f.o = "set" -> Set(C, st, t, i, f.n, f.v, d)
                    [] f.o = "del" -> Delete(C, st, t, i, f.n, d)
                    [] f.o = "dispatch" -> Notify(C, st, t, i, f.n, <<>>, f.v, d)
                    [] f.o = "unbind" -> [st |-> [st EXCEPT !.sub[i][f.n] = <<>>], calls |-> d,
                                          ok |-> TRUE]
         IN IF r.ok THEN Run(C, r.st, Tail(todo), r.calls) ELSE r
Notify(C, st, t, i, n, own, v, done) ==
    IF Suppressed(C, st, t, n) THEN [st |-> st, calls |-> done, ok |-> TRUE]
    ELSE Run(C, st, Calls(st, i, n, own, v, t), done)
Set(C, st, t, i, a, v, done) ==
    LET n == [st EXCEPT !.val[i][a] = v] IN
    IF C.attrs[a].always = "T" \/ v # Cur(C, st, i, a)
    THEN Notify(C, n, t, i, a, C.attrs[a].own, v, done)
    ELSE [st |-> n, calls |-> done, ok |-> TRUE]
Delete(C, st, t, i, a, done) ==
    IF st.val[i][a] = "none" THEN [st |-> st, calls |-> done, ok |-> FALSE]
    ELSE Notify(C, [st EXCEPT !.val[i][a] = "none"], t, i, a, <<>>, "UNSET", done)

Out(r) == Res(r.st, <<IF r.ok THEN "ok" ELSE "err", r.calls>>)
Step(C, st, op) ==
    LET t == op.t IN
    CASE op.o = "set" -> Out(Set(C, st, t, op.i, op.n, op.v, <<>>))
      [] op.o = "del" -> Out(Delete(C, st, t, op.i, op.n, <<>>))
      [] op.o = "get" -> Res(st, <<"ok", Cur(C, st, op.i, op.n)>>)
      [] op.o = "stored" -> Res(st, <<"ok", st.val[op.i][op.n]>>)
      [] op.o = "class" -> Res(st, <<"ok", C.attrs[op.n].def>>)
      [] op.o = "dispatch" -> Out(Notify(C, st, t, op.i, op.n, <<>>, op.v, <<>>))
      \* the method which is an own subscriber, called directly
      [] op.o = "method" ->
           Out(Run(C, st, <<Call(C.attrs[op.n].own[op.j], "own", op.i, op.v, t)>>, <<>>))
      [] op.o = "bind" -> Res(IF \E j \in 1..Len(st.sub[op.i][op.n]) : st.sub[op.i][op.n][j] = op.s
                              THEN st ELSE [st EXCEPT !.sub[op.i][op.n] = Append(@, op.s)], <<"ok">>)
      [] op.o = "unbind" -> Res([st EXCEPT !.sub[op.i][op.n] = Without(@, op.s)], <<"ok">>)
      [] op.o = "create" -> Res(st, <<"ok">>)
      [] op.o = "enter" -> Res([st EXCEPT !.open[t] = Append(@, op.x)],
                               <<"ok", Len(st.open[t]) + 1>>)
      \* normally or by exception
      [] op.o \in {"exit", "abort"} ->
           Res([st EXCEPT !.open[t] = SubSeq(@, 1, Len(@) - 1)], <<"ok">>)
      [] op.o = "new" -> Res([st EXCEPT !.val[op.i] = [a \in Attrs(C) |-> "none"],
                                        !.sub[op.i] = [n \in Names(C) |-> <<>>]], <<"ok">>)

\* subscribers that do something only at names of C.outer; what they do is
\* noticed by others only
Acting(C) == {s \in C.subs : C.eff[s].o \in {"set", "dispatch", "del"}}
InDomain(C, st, op) ==
    CASE op.o = "bind" -> op.s \in Acting(C) => op.n \in C.outer
      [] op.o \in {"exit", "abort"} -> st.open[op.t] # <<>>
      [] op.o = "method" -> op.j <= Len(C.attrs[op.n].own)
      [] op.o = "dispatch" -> op.n \in C.evs \cup Attrs(C)
      [] OTHER -> TRUE
=============================================================================
