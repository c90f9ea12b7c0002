----------------------------- MODULE Fallback -----------------------------
(* Lookups with fallback subtrees.                                          *)
(* C.keys  child keys      C.attrs  the key of attribute nodes, "@"         *)
(* C.vals  values          C.ths    threads                                 *)
(* C.start  the paths of the nodes at the beginning                         *)
(* st.e    the tree, a set of entries [p |-> path, k |-> kind, v |-> value, *)
(*         fb |-> fallback key or ""]; kind "F": node with fallback,        *)
(*         "N": node without, "V": value.  The root is the entry <<>>       *)
(* st.open[t]  "" or the answer thread t is about to get                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Res(st, out) == {[st |-> st, out |-> out]}
Has(st, p) == \E e \in st.e : e.p = p
At(st, p) == CHOOSE e \in st.e : e.p = p
IsNode(st, p) == Has(st, p) /\ At(st, p).k # "V"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Hit(st, p) == LET e == At(st, p) IN IF e.k = "V" THEN <<"val", e.v>> ELSE <<"node", e.p>>
None == <<"none">>

\* how far rest leads from p
RECURSIVE Walk(_, _, _)
Walk(st, p, rest) ==
    IF rest = <<>> THEN [hit |-> TRUE, p |-> p, bad |-> FALSE]
    ELSE IF ~IsNode(st, p) THEN [hit |-> FALSE, p |-> p, bad |-> TRUE]
    ELSE IF Has(st, Append(p, Head(rest))) THEN Walk(st, Append(p, Head(rest)), Tail(rest))
    ELSE [hit |-> FALSE, p |-> p, bad |-> FALSE]

(* The nearest ancestor of at which declares a fallback, has the fallback   *)
(* child and was not asked before gives the subtree to look for the same    *)
(* path in; if it is not there, the search goes on from where it ended.     *)
RECURSIVE Search(_, _, _, _)
Search(st, at, path, asked) ==
    LET Up == {n \in 0..Len(at) - 1 :
                 LET e == At(st, SubSeq(at, 1, n)) IN
                 /\ e.fb # ""
                 /\ Has(st, Append(e.p, e.fb))
                 /\ e.p \notin asked}
    IN IF Up = {} THEN [hit |-> FALSE, p |-> <<>>, bad |-> FALSE]
       ELSE LET n == CHOOSE n \in Up : \A m \in Up : m <= n
                e == At(st, SubSeq(at, 1, n))
                w == Walk(st, Append(e.p, e.fb), SubSeq(path, n + 2, Len(path)))
            IN IF w.hit \/ w.bad THEN w
               ELSE Search(st, w.p, path, asked \cup {e.p})
Find(st, p, key) ==
    LET path == Append(p, key) IN
    IF Has(st, path) THEN [hit |-> TRUE, p |-> path, bad |-> FALSE]
    ELSE IF At(st, p).k = "N" THEN [hit |-> FALSE, p |-> <<>>, bad |-> FALSE]
    ELSE Search(st, p, path, {})

Answer(st, how, p, key) ==
    LET w == Find(st, p, key) IN
    CASE how = "contains" -> IF w.hit THEN <<"T">> ELSE <<"F">>
      [] how = "get" -> IF w.hit THEN Hit(st, w.p) ELSE <<"default">>
      [] how = "read" -> IF w.hit THEN Hit(st, w.p) ELSE <<"err", key>>

Init0(C) == {[e |-> {[p |-> p, k |-> "F", v |-> "", fb |-> ""] : p \in C.start},
              open |-> [t \in C.ths |-> <<>>]]}
Step(C, st, op) ==
    CASE op.o = "add" ->
           Res([st EXCEPT !.e = @ \cup {[p |-> Append(op.p, op.key), k |-> op.k, v |-> op.v,
                                         fb |-> op.fb]}], <<"ok">>)
      [] op.o = "del" ->
           LET q == Append(op.p, op.key) IN
           Res([st EXCEPT !.e = {e \in @ : ~IsPrefix(q, e.p)}], <<"ok">>)
      [] op.o = "declare" ->
           LET e == At(st, op.p) IN
           Res([st EXCEPT !.e = (@ \ {e}) \cup {[e EXCEPT !.fb = op.fb]}], <<"ok">>)
      [] op.o = "look" -> Res(st, Answer(st, op.how, op.p, op.key))
      \* the storage raises at some access, if the lookup gets there
      [] op.o = "lookfail" -> Res(st, Answer(st, op.how, op.p, op.key))
                              \cup Res(st, <<"err", "OSError">>)
      [] op.o = "start" ->
           Res([st EXCEPT !.open[op.t] = Answer(st, op.how, op.p, op.key)], <<"ok">>)
      [] op.o = "finish" -> Res([st EXCEPT !.open[op.t] = <<>>], st.open[op.t])

Quiet(C, st) == \A t \in C.ths : st.open[t] = <<>>
InDomain(C, st, op) ==
    CASE op.o = "add" ->
           /\ Quiet(C, st)
           /\ IsNode(st, op.p)
           /\ ~Has(st, Append(op.p, op.key))
           /\ op.key = C.attrs => op.k # "V" /\ (op.p = <<>> \/ op.p[Len(op.p)] # C.attrs)
           \* the nodes below attribute nodes have no attributes themselves
           /\ \A j \in 1..Len(op.p) : op.p[j] = C.attrs => op.key # C.attrs
           /\ op.k = "V" => op.fb = ""
           /\ op.k # "V" => op.v = ""
      [] op.o = "del" -> Quiet(C, st) /\ Has(st, Append(op.p, op.key))
      [] op.o = "declare" -> Quiet(C, st) /\ IsNode(st, op.p) /\ At(st, op.p).fb # op.fb
      [] op.o \in {"look", "lookfail"} ->
                          /\ op.key # C.attrs /\ IsNode(st, op.p) /\ st.open[op.t] = <<>>
                          /\ ~Find(st, op.p, op.key).bad
      [] op.o = "start" -> /\ op.key # C.attrs /\ op.t # "t0" /\ IsNode(st, op.p) /\ st.open[op.t] = <<>>
                           /\ ~Find(st, op.p, op.key).bad
      [] op.o = "finish" -> st.open[op.t] # <<>>
=============================================================================
