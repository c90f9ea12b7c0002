------------------------------- MODULE Copy -------------------------------
(* Deep copies, pickling and shallow copies of trees.                        *)
(* tree   [c |-> class, n |-> key in the parent or name of the root,         *)
(*         u |-> uuid number or 0, a |-> attribute -> value, v |-> value,    *)
(*         k |-> <<children>>]                                               *)
(*        a plain value is a leaf of class "="                               *)
(* value  <<"-">> none, <<"s">> text, <<"u">> UNSET, <<"l", n>> a list of n elements        *)
(* C.cls[c]  [attrs, values, ref, aware |-> "T"/"F", deep |-> "T"/"F"]       *)
(*   values: accepts plain values   ref: has a uuid and a lookup by uuid     *)
(*   aware: uuid aware              deep: fresh uuids for all descendants    *)
(* st.t[s]  tree in slot s or NoTree    st.d[d]  pickled tree or NoTree      *)
(* st.u     number of uuids in use                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoVal == <<"-">>
NoTree == [c |-> "-", n |-> "-", u |-> 0, a |-> [x \in {} |-> NoVal], v |-> NoVal, k |-> <<>>]
HasUuid(C, c) == C.cls[c].ref = "T" \/ C.cls[c].aware = "T"
Leaf(C, c, n, u) == [c |-> c, n |-> n, u |-> IF HasUuid(C, c) THEN u ELSE 0,
                     a |-> [x \in C.akeys |-> NoVal], v |-> NoVal, k |-> <<>>]
Val(C, n, v) == [c |-> "=", n |-> n, u |-> 0, a |-> [x \in C.akeys |-> NoVal], v |-> v, k |-> <<>>]

Pos(t, n) == CHOOSE i \in 1..Len(t.k) : t.k[i].n = n
HasKid(t, n) == \E i \in 1..Len(t.k) : t.k[i].n = n
RECURSIVE HasPath(_, _), Sub(_, _), Repl(_, _, _), Size(_), SumSize(_), Uuids(_)
HasPath(t, p) == IF p = <<>> THEN t.c # "="
                 ELSE HasKid(t, Head(p)) /\ HasPath(t.k[Pos(t, Head(p))], Tail(p))
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.k[Pos(t, Head(p))], Tail(p))
Repl(t, p, u) == IF p = <<>> THEN u
                 ELSE [t EXCEPT !.k[Pos(t, Head(p))] = Repl(@, Tail(p), u)]
SumSize(ks) == IF ks = <<>> THEN 0 ELSE Size(Head(ks)) + SumSize(Tail(ks))
Size(t) == 1 + SumSize(t.k)
Uuids(t) == ({t.u} \ {0}) \cup UNION {Uuids(t.k[i]) : i \in 1..Len(t.k)}
Put(t, u) == IF HasKid(t, u.n) THEN [t EXCEPT !.k[Pos(t, u.n)] = u]
             ELSE [t EXCEPT !.k = Append(@, u)]

(* Fresh uuids in preorder: [t |-> tree, u |-> uuids in use]                 *)
RECURSIVE Fresh(_, _, _), FreshAll(_, _, _, _)
Fresh(C, t, u) ==
    IF t.c = "=" THEN [t |-> t, u |-> u]
    ELSE LET aware == C.cls[t.c].aware = "T"
             v == IF aware THEN u + 1 ELSE u
             r == FreshAll(C, t.k, v, <<>>)
         IN [t |-> [t EXCEPT !.u = IF aware THEN u + 1 ELSE @, !.k = r.k], u |-> r.u]
FreshAll(C, ks, u, done) ==
    IF ks = <<>> THEN [k |-> done, u |-> u]
    ELSE LET r == Fresh(C, Head(ks), u) IN FreshAll(C, Tail(ks), r.u, Append(done, r.t))
DeepCopy(C, t, u) ==
    IF C.cls[t.c].aware = "F" THEN [t |-> t, u |-> u]
    ELSE IF C.cls[t.c].deep = "T" THEN Fresh(C, t, u)
    ELSE [t |-> [t EXCEPT !.u = u + 1], u |-> u + 1]

Res(st, out) == {[st |-> st, out |-> out]}
\* all trees are looked at after every step
Seen(st) == Res(st, <<"ok", st.t>>)
Init0(C) == {[t |-> [s \in C.slots |-> NoTree], d |-> [x \in C.docs |-> NoTree], u |-> 0]}
Step(C, st, op) ==
  CASE op.o = "new" ->
         LET l == Leaf(C, op.c, op.n, st.u + 1)
         IN Seen([st EXCEPT !.t[op.s] = l, !.u = @ + (IF l.u = 0 THEN 0 ELSE 1)])
    [] op.o = "add" ->
         LET t == st.t[op.s]  l == Leaf(C, op.c, op.n, st.u + 1)
         IN Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, Put(Sub(t, op.p), l)),
                            !.u = @ + (IF l.u = 0 THEN 0 ELSE 1)])
    [] op.o = "set" -> LET t == st.t[op.s] IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, Put(Sub(t, op.p), Val(C, op.n, op.v)))])
    [] op.o = "del" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p,
                 [u EXCEPT !.k = SelectSeq(@, LAMBDA x : x.n # op.n)])])
    [] op.o = "attr" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, [u EXCEPT !.a[op.k] = op.v])])
    \* a list which is an attribute or a value gets another element
    [] op.o = "mutattr" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, [u EXCEPT !.a[op.k] = <<"l", @[2] + 1>>])])
    [] op.o = "mutval" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, [u EXCEPT !.k[Pos(u, op.n)].v =
                 <<"l", @[2] + 1>>])])
    [] op.o = "rename" -> Seen([st EXCEPT !.t[op.s].n = op.n])
    [] op.o = "lock" -> Seen(st)
    [] op.o = "deepcopy" -> LET r == DeepCopy(C, st.t[op.s], st.u) IN
         Seen([st EXCEPT !.t[op.to] = r.t, !.u = r.u])
    [] op.o = "dump" -> Seen([st EXCEPT !.d[op.d] = st.t[op.s]])
    [] op.o = "load" -> Seen([st EXCEPT !.t[op.to] = st.d[op.d]])
    [] op.o = "copy" -> LET u == Sub(st.t[op.s], op.p) IN
         Res(st, IF C.cls[u.c].aware = "T" THEN <<"err", "RuntimeError", st.t>>
                 ELSE <<"ok", [u EXCEPT !.u = 0], st.t>>)
    \* the tree of slot s becomes a child in the tree of slot to
    [] op.o = "graft" ->
         LET t == st.t[op.to]
             u == [st.t[op.s] EXCEPT !.n = op.n]
         IN Seen([st EXCEPT !.t[op.to] = Repl(t, op.p, Put(Sub(t, op.p), u)), !.t[op.s] = NoTree])

Accepts(C, t, c) == C.cls[t.c].ref = "T" => C.cls[c].ref = "T"
\* nodes with references below others
RECURSIVE AllRef(_, _)
AllRef(C, t) == IF t.c = "=" THEN TRUE
                ELSE C.cls[t.c].ref = "T" /\ \A i \in 1..Len(t.k) : AllRef(C, t.k[i])
RECURSIVE Norm(_)
Norm(t) == [t EXCEPT !.u = 0, !.k = [i \in 1..Len(t.k) |-> Norm(t.k[i])]]
InDomain(C, st, op) ==
    LET T(s) == st.t[s] # NoTree
        At(s, p) == T(s) /\ HasPath(st.t[s], p)
    IN
    CASE op.o = "new" -> ~T(op.s)
      [] op.o = "add" -> At(op.s, op.p) /\ op.n # "NONE" /\ Accepts(C, Sub(st.t[op.s], op.p), op.c)
      [] op.o = "set" -> At(op.s, op.p) /\ op.n # "NONE" /\ C.cls[Sub(st.t[op.s], op.p).c].values = "T"
      [] op.o = "del" -> At(op.s, op.p) /\ HasKid(Sub(st.t[op.s], op.p), op.n)
      [] op.o = "attr" -> /\ At(op.s, op.p) /\ C.cls[Sub(st.t[op.s], op.p).c].attrs = "T"
                          /\ (op.v # NoVal \/ Sub(st.t[op.s], op.p).a[op.k] # NoVal)
      [] op.o = "mutattr" -> At(op.s, op.p) /\ Sub(st.t[op.s], op.p).a[op.k][1] = "l"
      [] op.o = "mutval" -> /\ At(op.s, op.p) /\ HasKid(Sub(st.t[op.s], op.p), op.n)
                            /\ Sub(st.t[op.s], Append(op.p, op.n)).v[1] = "l"
      [] op.o = "rename" -> T(op.s)
      [] op.o \in {"lock", "copy"} -> At(op.s, op.p)
      [] op.o \in {"deepcopy"} -> T(op.s) /\ op.to # op.s
      [] op.o = "dump" -> T(op.s)
      [] op.o = "load" -> st.d[op.d] # NoTree
      [] op.o = "graft" -> /\ op.s # op.to /\ T(op.s) /\ At(op.to, op.p) /\ op.n # "NONE"
                           /\ Accepts(C, Sub(st.t[op.to], op.p), st.t[op.s].c)
                           \* no uuid twice in a tree with references
                           /\ C.cls[st.t[op.s].c].ref = "T" =>
                                 Uuids(st.t[op.s]) \cap Uuids(st.t[op.to]) = {}
=============================================================================
