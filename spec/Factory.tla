----------------------------- MODULE Factory -----------------------------
(* Nodes with child factories and nodes with fixed children.               *)
(* C.cls[c]    [kind |-> "fac" | "fixed", decl |-> <<<<key, factory>>..>>] *)
(* C.insts     instance -> class          C.keys  all keys                 *)
(* C.vals      values a user stores                                        *)
(* Factory "fN" makes None, which has no identity                           *)
(* C.inv       "T": invalidation supported                                 *)
(* st.kid[i][k]   what is stored: a factory name, a value or "none"        *)
(* st.seen[i][k]  "T" iff this object was returned by a read before        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Insts(C) == DOMAIN C.insts
Cls(C, i) == C.cls[C.insts[i]]
Decl(C, i) == Cls(C, i).decl
Fixed(C, i) == Cls(C, i).kind = "fixed"
Declared(C, i) == {Decl(C, i)[j][1] : j \in 1..Len(Decl(C, i))}
DeclKeys(C, i) == [j \in 1..Len(Decl(C, i)) |-> Decl(C, i)[j][1]]
Fac(C, i, k) == LET j == CHOOSE j \in 1..Len(Decl(C, i)) : Decl(C, i)[j][1] = k
                IN Decl(C, i)[j][2]
Init0(C) == {[kid |-> [i \in Insts(C) |-> [k \in C.keys |->
                  IF Fixed(C, i) /\ k \in Declared(C, i) THEN Fac(C, i, k) ELSE "none"]],
              seen |-> [i \in Insts(C) |-> [k \in C.keys |-> "F"]]]}

Res(st, out) == {[st |-> st, out |-> out]}
KeyErr == <<"err", "KeyError">>
Put(st, i, k, v) == [st EXCEPT !.kid[i][k] = v, !.seen[i][k] = "F"]

(* [st, val, new, calls] *)
Read(C, st, i, k) ==
    IF st.kid[i][k] # "none" THEN
        [st |-> [st EXCEPT !.seen[i][k] = "T"], val |-> st.kid[i][k],
         new |-> IF st.kid[i][k] = "fN" THEN "-" ELSE IF st.seen[i][k] = "T" THEN "same" ELSE "new",
         calls |-> <<>>]
    ELSE IF k \notin Declared(C, i) THEN
        [st |-> st, val |-> "none", new |-> "", calls |-> <<>>]
    ELSE LET f == Fac(C, i, k) IN
        [st |-> [st EXCEPT !.kid[i][k] = f, !.seen[i][k] = "T"], val |-> f,
         new |-> IF f = "fN" THEN "-" ELSE "new",
         calls |-> <<f>>]
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(C, st, i, ks, acc) ==
    IF ks = <<>> THEN [st |-> st, out |-> acc]
    ELSE LET r == Read(C, st, i, Head(ks))
         IN ReadAll(C, r.st, i, Tail(ks), Append(acc, <<Head(ks), r.val, r.new, r.calls>>))
RECURSIVE DelAll(_, _, _)
DelAll(st, i, ks) == IF ks = <<>> THEN st ELSE DelAll(Put(st, i, Head(ks), "none"), i, Tail(ks))

Rejected == <<"err", "rejected">>
Step(C, st, op) ==
  LET i == op.i  k == op.k IN
  CASE op.o \in {"read", "get", "setdefault"} ->
        LET r == Read(C, st, i, k) IN
        IF r.val # "none" THEN Res(r.st, <<"ok", r.val, r.new, r.calls>>)
        ELSE IF op.o = "get" THEN Res(st, <<"default">>)
        ELSE IF op.o = "read" THEN Res(st, KeyErr)
        ELSE IF Fixed(C, i) THEN Res(st, Rejected)
        ELSE Res(Put(st, i, k, op.v), <<"ok", op.v>>)
    [] op.o = "contains" ->
        LET r == Read(C, st, i, k) IN
        IF r.val = "none" THEN Res(st, <<"ok", "F", <<>>>>)
        ELSE {[st |-> [r.st EXCEPT !.seen[i][k] = st.seen[i][k]], out |-> <<"ok", "T", r.calls>>],
              [st |-> st, out |-> <<"ok", "T", <<>>>>]}
    [] op.o = "keys" -> Res(st, <<"ok", DeclKeys(C, i), <<>>>>)
    [] op.o = "values" -> LET r == ReadAll(C, st, i, DeclKeys(C, i), <<>>)
                          IN Res(r.st, <<"ok", r.out>>)
    [] op.o = "first" ->       \* only the first of the iterated values
        IF Decl(C, i) = <<>> THEN Res(st, <<"ok", <<>>>>)
        ELSE LET r == ReadAll(C, st, i, <<DeclKeys(C, i)[1]>>, <<>>)
             IN Res(r.st, <<"ok", r.out>>)
    [] op.o = "set" -> IF Fixed(C, i) THEN Res(st, Rejected)
                       ELSE Res(Put(st, i, k, op.v), <<"ok">>)
    [] op.o = "del" ->
        IF Fixed(C, i) THEN Res(st, Rejected)
        ELSE IF st.kid[i][k] = "none" THEN Res(st, KeyErr)
        ELSE Res(Put(st, i, k, "none"), <<"ok">>)
    [] op.o \in {"pop", "detach"} ->
        LET r == Read(C, st, i, k) IN
        IF r.val = "none" THEN Res(st, KeyErr)
        ELSE IF Fixed(C, i) THEN Res(st, Rejected)
        ELSE Res(Put(r.st, i, k, "none"), <<"ok", r.val, r.new, r.calls>>)
    [] op.o = "popitem" ->
        IF Decl(C, i) = <<>> THEN Res(st, KeyErr)
        ELSE IF Fixed(C, i) THEN Res(st, Rejected)
        ELSE LET x == DeclKeys(C, i)[Len(Decl(C, i))]
                 r == Read(C, st, i, x)
             IN Res(Put(r.st, i, x, "none"), <<"ok", x, r.val, r.new, r.calls>>)
    [] op.o = "clear" ->
        IF Decl(C, i) = <<>> THEN Res(st, <<"ok">>)
        ELSE IF Fixed(C, i) THEN Res(st, Rejected)
        ELSE Res(DelAll(st, i, DeclKeys(C, i)), <<"ok">>)
    [] op.o = "inv" ->
        IF k \in Declared(C, i) THEN Res(Put(st, i, k, "none"), <<"ok">>) ELSE Res(st, KeyErr)
    [] op.o = "invall" ->
        Res([st EXCEPT !.kid[i] = [x \in C.keys |-> "none"],
                       !.seen[i] = [x \in C.keys |-> "F"]], <<"ok">>)
    [] op.o = "readfail" ->    \* the factory raises
        IF st.kid[i][k] # "none"
        THEN LET r == Read(C, st, i, k) IN Res(r.st, <<"ok", r.val, r.new, r.calls>>)
        ELSE IF k \in Declared(C, i) THEN Res(st, <<"err", "OSError">>)
        ELSE Res(st, KeyErr)

InDomain(C, st, op) ==
    CASE op.o \in {"inv", "invall"} -> C.inv = "T" /\ ~Fixed(C, op.i) /\
                (op.o = "inv" => op.k \in Declared(C, op.i) \/ st.kid[op.i][op.k] = "none")
      [] op.o = "clear" -> Fixed(C, op.i) \/ \A k \in Declared(C, op.i) : st.kid[op.i][k] # "none"
      [] op.o = "readfail" -> ~Fixed(C, op.i)
      \* fixed nodes and nodes below
      [] OTHER -> TRUE
=============================================================================
