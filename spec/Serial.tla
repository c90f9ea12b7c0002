------------------------------ MODULE Serial ------------------------------
(* Serialization of trees to JSON documents and back.                        *)
(* tree   [c |-> class, n |-> name, a |-> attribute -> value, p |-> value,   *)
(*         w |-> value, k |-> <<children>>]                                  *)
(*        a: NoVal where not set;  p: property with a custom serializer,     *)
(*        w: constructor argument with a custom serializer                   *)
(* value  <<"atom", x>>, <<"list", <<values>>>>, <<"dict", <<<<key, value>>>>>> *)
(* doc    <<"json", x>>, <<"arr", <<docs>>>>, <<"obj", <<<<key, doc>>>>>>    *)
(* C.cls[c]   [attrs |-> "T"/"F", cust |-> "T"/"F", ref |-> "T"/"F",         *)
(*            own |-> <<>>, init |-> <<<<key, value>>, ..>>];                *)
(*            nodes with references accept such nodes only;                  *)
(*            own: <<class, name>> of a child made by the constructor        *)
(*            init: attributes set by the constructor                        *)
(* C.atoms[x] "json": a JSON value, "mark": encoded as a string with a       *)
(*            marker, "ref": class or function                               *)
(* st.t[s]    tree in slot s, or NoTree    st.d[d]  document, or NoDoc       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoVal == <<"atom", "-">>
NoTree == [c |-> "-", n |-> "-", a |-> [x \in {} |-> NoVal], p |-> NoVal, w |-> NoVal, k |-> <<>>]
NoDoc == <<"json", "-">>
AKeys(C) == C.akeys
InitAttr(C, c, x) == LET s == SelectSeq(C.cls[c].init, LAMBDA i : i[1] = x)
                     IN IF s = <<>> THEN NoVal ELSE s[1][2]
RECURSIVE Leaf(_, _, _, _)
Leaf(C, c, n, w) == [c |-> c, n |-> n, a |-> [x \in AKeys(C) |-> InitAttr(C, c, x)], p |-> <<"atom", "n">>,
                     w |-> w,
                     k |-> LET o == C.cls[c].own
                           IN IF o = <<>> THEN <<>> ELSE <<Leaf(C, o[1], o[2], NoVal)>>]
Pos(t, n) == CHOOSE i \in 1..Len(t.k) : t.k[i].n = n
HasKid(t, n) == \E i \in 1..Len(t.k) : t.k[i].n = n
Put(t, u) == IF HasKid(t, u.n) THEN [t EXCEPT !.k[Pos(t, u.n)] = u]
             ELSE [t EXCEPT !.k = Append(@, u)]
RECURSIVE PutAll(_, _)
PutAll(t, us) == IF us = <<>> THEN t ELSE PutAll(Put(t, Head(us)), Tail(us))

------------------------------- \* encoding
RECURSIVE EncV(_, _), DecV(_, _), Enc(_, _), Dec(_, _)
EncV(C, v) ==
    CASE v[1] = "atom" -> (CASE C.atoms[v[2]] = "json" -> <<"json", v[2]>>
                             [] C.atoms[v[2]] = "mark" -> <<"mark", v[2]>>
                             [] C.atoms[v[2]] = "ref" ->
                                  <<"obj", << <<"__ob__", <<"json", v[2]>>>> >>>>)
      [] v[1] = "list" -> <<"arr", [i \in 1..Len(v[2]) |-> EncV(C, v[2][i])]>>
      [] v[1] = "dict" -> <<"obj", [i \in 1..Len(v[2]) |-> <<v[2][i][1], EncV(C, v[2][i][2])>>]>>
DecV(C, d) ==
    CASE d[1] \in {"json", "mark"} -> <<"atom", d[2]>>
      [] d[1] = "arr" -> <<"list", [i \in 1..Len(d[2]) |-> DecV(C, d[2][i])]>>
      [] d[1] = "obj" -> IF \E i \in 1..Len(d[2]) : d[2][i][1] = "__ob__" THEN <<"atom", d[2][1][2][2]>>
                         ELSE <<"dict", [i \in 1..Len(d[2]) |->
                                            <<d[2][i][1], DecV(C, d[2][i][2])>>]>>
Field(d, k) == LET i == CHOOSE i \in 1..Len(d[2]) : d[2][i][1] = k IN d[2][i][2]
HasField(d, k) == \E i \in 1..Len(d[2]) : d[2][i][1] = k
AttrSeq(C, t) == SelectSeq(SetToSeq(AKeys(C)), LAMBDA x : t.a[x] # NoVal)
Enc(C, t) ==
    LET as == AttrSeq(C, t)
        body == << <<"class", <<"json", t.c>>>>, <<"name", <<"json", t.n>>>> >>
           \o (IF t.k = <<>> THEN <<>>
               ELSE << <<"children", <<"arr", [i \in 1..Len(t.k) |-> Enc(C, t.k[i])]>>>> >>)
           \o (IF C.cls[t.c].attrs = "F" THEN <<>>
               ELSE << <<"attrs", <<"obj", [i \in 1..Len(as) |-> <<as[i], EncV(C, t.a[as[i]])>>]>>>> >>)
           \o (IF C.cls[t.c].cust = "F" THEN <<>>
               ELSE << <<"prop", EncV(C, t.p)>>,
                       <<"kw", <<"obj", << <<"arg", EncV(C, t.w)>> >>>>>> >>)
    IN <<"obj", << <<"__node__", <<"obj", body>>>> >>>>
Dec(C, d) ==
    LET b == Field(d, "__node__")
        c == Field(b, "class")[2]
        cust == HasField(b, "kw")
    IN [c |-> c, n |-> Field(b, "name")[2],
        a |-> [x \in AKeys(C) |->
                 IF HasField(b, "attrs") /\ HasField(Field(b, "attrs"), x)
                 THEN DecV(C, Field(Field(b, "attrs"), x)) ELSE InitAttr(C, c, x)],
        p |-> IF cust THEN DecV(C, Field(b, "prop")) ELSE <<"atom", "n">>,
        w |-> IF cust THEN DecV(C, Field(Field(b, "kw"), "arg")) ELSE NoVal,
        \* serialized children take the place of those made by the constructor
        k |-> LET t == Leaf(C, c, "-", NoVal) IN
              IF ~HasField(b, "children") THEN t.k
              ELSE LET ks == Field(b, "children")[2]
                   IN PutAll(t, [i \in 1..Len(ks) |-> Dec(C, ks[i])]).k]
\* without type information
RECURSIVE Simple(_, _, _)
Simple(C, t, incl) ==
    [c |-> IF incl = "T" THEN t.c ELSE "-", n |-> t.n, a |-> t.a,
     k |-> [i \in 1..Len(t.k) |-> Simple(C, t.k[i], incl)]]

------------------------------- \* trees
RECURSIVE HasPath(_, _), Sub(_, _), Repl(_, _, _), Size(_), SumSize(_)
HasPath(t, p) == p = <<>> \/ (HasKid(t, Head(p)) /\ HasPath(t.k[Pos(t, Head(p))], Tail(p)))
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.k[Pos(t, Head(p))], Tail(p))
Repl(t, p, u) == IF p = <<>> THEN u
                 ELSE [t EXCEPT !.k[Pos(t, Head(p))] = Repl(@, Tail(p), u)]
SumSize(ks) == IF ks = <<>> THEN 0 ELSE Size(Head(ks)) + SumSize(Tail(ks))
Size(t) == 1 + SumSize(t.k)
Roots(C, d) == IF d[1] = "arr" THEN [i \in 1..Len(d[2]) |-> Dec(C, d[2][i])] ELSE <<Dec(C, d)>>
Names(us) == [i \in 1..Len(us) |-> us[i].n]

Res(st, out) == {[st |-> st, out |-> out]}
\* the whole tree is looked at afterwards
Seen(st, s) == Res(st, <<"ok", st.t[s]>>)
Init0(C) == {[t |-> [s \in C.slots |-> NoTree], d |-> [x \in C.docs |-> NoDoc]]}
Step(C, st, op) ==
  CASE op.o = "new" -> Seen([st EXCEPT !.t[op.s] = Leaf(C, op.c, op.n, op.v)], op.s)
    [] op.o = "add" -> LET t == st.t[op.s] IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, Put(Sub(t, op.p), Leaf(C, op.c, op.n, op.v)))],
              op.s)
    [] op.o = "del" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p,
                 [u EXCEPT !.k = SelectSeq(@, LAMBDA x : x.n # op.n)])], op.s)
    [] op.o = "attr" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, [u EXCEPT !.a[op.k] = op.v])], op.s)
    [] op.o = "prop" -> LET t == st.t[op.s]  u == Sub(t, op.p) IN
         Seen([st EXCEPT !.t[op.s] = Repl(t, op.p, [u EXCEPT !.p = op.v])], op.s)
    [] op.o = "ser" ->
         Seen([st EXCEPT !.d[op.d] = Enc(C, Sub(st.t[op.s], op.p))], op.s)
    [] op.o = "serlist" -> LET u == Sub(st.t[op.s], op.p) IN
         Seen([st EXCEPT !.d[op.d] = <<"arr", [i \in 1..Len(u.k) |-> Enc(C, u.k[i])]>>], op.s)
    [] op.o = "simple" ->
         Res(st, <<"ok", Simple(C, Sub(st.t[op.s], op.p), op.i), st.t[op.s]>>)
    [] op.o = "des" -> Seen([st EXCEPT !.t[op.s] = Dec(C, st.d[op.d])], op.s)
    [] op.o = "deslist" -> LET d == st.d[op.d] IN
         Res(st, <<"ok", [i \in 1..Len(d[2]) |-> Dec(C, d[2][i])]>>)
    \* read by another process
    [] op.o = "fresh" -> Res(st, <<"ok", Roots(C, st.d[op.d])>>)
    [] op.o = "desroot" ->
         LET d == st.d[op.d]  t == st.t[op.s]
             us == Roots(C, d)
             n == [st EXCEPT !.t[op.s] = Repl(t, op.p, PutAll(Sub(t, op.p), us))]
         IN Res(n, <<"ok", n.t[op.s], Names(us)>>)

Accepts(C, t, c) == C.cls[t.c].ref = "T" => C.cls[c].ref = "T"
InDomain(C, st, op) ==
    LET T(s) == st.t[s] # NoTree IN
    CASE op.o = "new" -> (op.v # NoVal) = (C.cls[op.c].cust = "T")
      [] op.o = "add" -> /\ T(op.s) /\ HasPath(st.t[op.s], op.p) /\ op.n # "NONE"
                         /\ Accepts(C, Sub(st.t[op.s], op.p), op.c)
                         /\ (op.v # NoVal) = (C.cls[op.c].cust = "T")
      [] op.o = "del" -> T(op.s) /\ HasPath(st.t[op.s], op.p) /\ HasKid(Sub(st.t[op.s], op.p), op.n)
      [] op.o = "attr" -> /\ T(op.s) /\ HasPath(st.t[op.s], op.p)
                          /\ C.cls[Sub(st.t[op.s], op.p).c].attrs = "T"
                          /\ Sub(st.t[op.s], op.p).a[op.k] # op.v
      [] op.o = "prop" -> /\ T(op.s) /\ HasPath(st.t[op.s], op.p)
                          /\ C.cls[Sub(st.t[op.s], op.p).c].cust = "T" /\ op.v # NoVal
      [] op.o \in {"ser", "serlist", "simple"} -> T(op.s) /\ HasPath(st.t[op.s], op.p)
      [] op.o = "des" -> st.d[op.d] # NoDoc /\ st.d[op.d][1] = "obj"
      [] op.o = "fresh" -> st.d[op.d] # NoDoc
      [] op.o = "deslist" -> st.d[op.d] # NoDoc /\ st.d[op.d][1] = "arr"
      [] op.o = "desroot" -> /\ T(op.s) /\ HasPath(st.t[op.s], op.p) /\ st.d[op.d] # NoDoc
                             /\ \A i \in 1..Len(Roots(C, st.d[op.d])) :
                                  Accepts(C, Sub(st.t[op.s], op.p), Roots(C, st.d[op.d])[i].c)
                             /\ st.d[op.d][1] = "obj" => Dec(C, st.d[op.d]).n # "NONE"
=============================================================================
