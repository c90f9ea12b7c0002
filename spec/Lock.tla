------------------------------- MODULE Lock -------------------------------
(* The lock of a tree as its users see it.                                   *)
(* C.root[n]  root of node n at the beginning (roots are nodes)              *)
(* C.ths      threads                                                        *)
(* st.root[n] the root of the tree which n belongs to                        *)
(* st.own[r]  the thread inside of sections of the tree with root r, or ""   *)
(* st.stk[t]  the roots of the sections thread t is in, innermost last       *)
(* st.wait[t] the root of the tree thread t waits for, or ""                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Nodes(C) == DOMAIN C.root
Init0(C) == {[root |-> C.root, own |-> [n \in Nodes(C) |-> ""], stk |-> [t \in C.ths |-> <<>>],
              wait |-> [t \in C.ths |-> ""]]}
Enter(st, t, r) == [st EXCEPT !.own[r] = t, !.stk[t] = Append(@, r), !.wait[t] = ""]
Want(st, t, n) == LET r == st.root[n] IN
    IF st.own[r] \in {"", t} THEN Enter(st, t, r) ELSE [st EXCEPT !.wait[t] = r]
\* a released lock goes to one of those who wait for it
Leave(C, st, t) ==
    LET r == st.stk[t][Len(st.stk[t])]
        s == [st EXCEPT !.stk[t] = SubSeq(@, 1, Len(@) - 1)]
        W == {u \in C.ths : st.wait[u] = r}
    IN IF \E i \in 1..Len(s.stk[t]) : s.stk[t][i] = r THEN {s}
       ELSE IF W = {} THEN {[s EXCEPT !.own[r] = ""]}
       ELSE {Enter(s, u, r) : u \in W}
Act(C, st, x) == IF x.a = "want" THEN {Want(st, x.t, x.n)} ELSE Leave(C, st, x.t)
RECURSIVE Acts(_, _, _)
\* the acts of several threads at once, in any order
Acts(C, S, todo) ==
    IF todo = {} THEN S
    ELSE UNION {Acts(C, UNION {Act(C, s, x) : s \in S}, todo \ {x}) : x \in todo}
View(C, st) == [t \in C.ths |-> <<st.stk[t], st.wait[t]>>]
Result(x) == IF x.a = "leave" THEN x.how ELSE ""
Step(C, st, op) ==
    CASE op.o = "par" ->
           LET n == Len(op.acts)
               R == Acts(C, {st}, {op.acts[i] : i \in 1..n})
           IN {[st |-> s, out |-> <<"ok", View(C, s), [i \in 1..n |-> Result(op.acts[i])]>>] :
               s \in R}
      [] op.o = "join" ->
           \* the tree of root n becomes a subtree of m's tree
           {[st |-> [st EXCEPT !.root = [k \in Nodes(C) |-> IF st.root[k] = op.n THEN st.root[op.m]
                                                              ELSE st.root[k]]], out |-> <<"ok">>]}
      [] op.o = "split" ->
           {[st |-> [st EXCEPT !.root = [k \in Nodes(C) |-> IF C.root[k] = op.n THEN op.n
                                                              ELSE st.root[k]]], out |-> <<"ok">>]}
NoWait(C, st, r) == \A t \in C.ths : st.wait[t] # r
Idle(C, st, r) == NoWait(C, st, r) /\ st.own[r] = ""
InDomain(C, st, op) ==
    CASE op.o = "par" ->
           /\ \A i, j \in 1..Len(op.acts) : i # j => op.acts[i].t # op.acts[j].t
           /\ \A i \in 1..Len(op.acts) : LET x == op.acts[i] IN
                /\ st.wait[x.t] = ""
                /\ x.a = "leave" => st.stk[x.t] # <<>>
      \* a tree is joined to another one while nobody uses its lock, and split off while
      \* nobody waits for the lock of the whole; the whole may be locked
      [] op.o = "join" -> /\ Idle(C, st, op.n) /\ st.root[op.n] = op.n /\ st.root[op.m] # op.n
                          /\ st.root[op.m] = C.root[op.m]
                          /\ C.root[op.n] = op.n /\ \A k \in Nodes(C) :
                               st.root[k] = op.n => C.root[k] = op.n
      [] op.o = "split" -> NoWait(C, st, st.root[op.n]) /\ C.root[op.n] = op.n /\ st.root[op.n] # op.n
                           /\ st.root[op.n] = C.root[st.root[op.n]]
=============================================================================
