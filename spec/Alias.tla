------------------------------ MODULE Alias ------------------------------
(* Aliasers, nodes with aliaser and reversed mappings.                     *)
(* A text is a sequence of characters.  An aliaser is                      *)
(*   [t |-> "dict", strict |-> "T"/"F", pairs |-> <<<<alias, real>>, ..>>] *)
(*   [t |-> "prefix", x |-> text]   [t |-> "suffix", x |-> text]           *)
(*   [t |-> "chain", parts |-> <<aliaser, ..>>]                            *)
(*   [t |-> "both", p |-> text, s |-> text]                                *)
(* C.al    the first aliaser ([t |-> "none"]: node without aliaser)        *)
(* C.ord   "T"/"F": ordered storage                                        *)
(* st.al   the current aliaser; dictionaries may change, and the node may  *)
(*         get another aliaser                                             *)
(* st.kid  what the unaliased node holds: <<<<real key, value>>, ..>>      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Pos(s, k) == LET I == {i \in 1..Len(s) : s[i][1] = k}
             IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Put(s, k, v) == LET p == Pos(s, k) IN IF p # 0 THEN [s EXCEPT ![p] = <<k, v>>]
                                      ELSE Append(s, <<k, v>>)
Drop(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)

---------------------------------------------------------------------------
(* translation: <<TRUE, text>> or <<FALSE, <<>>>> *)
Yes(x) == <<TRUE, x>>
No == <<FALSE, <<>>>>
Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Ends(k, s) == Len(k) >= Len(s) /\ SubSeq(k, Len(k) - Len(s) + 1, Len(k)) = s

RECURSIVE Al(_, _), Un(_, _), AlAll(_, _), UnAll(_, _)
AlAll(ps, k) == IF ps = <<>> THEN Yes(k)
                ELSE LET r == Al(Head(ps), k)
                     IN IF r[1] THEN AlAll(Tail(ps), r[2]) ELSE No
UnAll(ps, k) == IF ps = <<>> THEN Yes(k)
                ELSE LET r == Un(ps[Len(ps)], k)
                     IN IF r[1] THEN UnAll(SubSeq(ps, 1, Len(ps) - 1), r[2]) ELSE No
Al(a, k) ==
    CASE a.t = "none" -> Yes(k)
      [] a.t = "dict" ->
            LET I == {i \in 1..Len(a.pairs) : a.pairs[i][2] = k}
            IN IF I # {} THEN Yes(a.pairs[CHOOSE i \in I : \A j \in I : i <= j][1])
               ELSE IF a.strict = "T" THEN No ELSE Yes(k)
      [] a.t = "prefix" -> Yes(a.x \o k)
      [] a.t = "suffix" -> Yes(k \o a.x)
      [] a.t = "both" -> Yes(a.p \o k \o a.s)
      [] a.t = "chain" -> AlAll(a.parts, k)
Un(a, k) ==
    CASE a.t = "none" -> Yes(k)
      [] a.t = "dict" ->
            LET p == Pos(a.pairs, k)
            IN IF p # 0 THEN Yes(a.pairs[p][2]) ELSE IF a.strict = "T" THEN No ELSE Yes(k)
      [] a.t = "prefix" -> IF Starts(k, a.x) THEN Yes(SubSeq(k, Len(a.x) + 1, Len(k))) ELSE No
      [] a.t = "suffix" -> IF Ends(k, a.x) THEN Yes(SubSeq(k, 1, Len(k) - Len(a.x))) ELSE No
      [] a.t = "both" ->
            IF Len(k) >= Len(a.p) + Len(a.s) /\ Starts(k, a.p) /\ Ends(k, a.s)
            THEN Yes(SubSeq(k, Len(a.p) + 1, Len(k) - Len(a.s))) ELSE No
      [] a.t = "chain" -> UnAll(a.parts, k)
RECURSIVE Deep(_)       \* does an error name a partly translated key?
Deep(a) == a.t \in {"chain", "both"}
RECURSIVE Lists(_)      \* may refuse to translate a real key
Lists(a) == \/ a.t = "dict" /\ a.strict = "T"
            \/ a.t = "chain" /\ \E i \in 1..Len(a.parts) : Lists(a.parts[i])

---------------------------------------------------------------------------
Init0(C) == {[kid |-> <<>>, al |-> C.al]}
Res(st, out) == {[st |-> st, out |-> out]}
\* how the error names the key
Given(st) == {[st |-> st, out |-> <<"err", "KeyError", "given">>]}
Bad(C, st) == {[st |-> st, out |-> <<"err", "KeyError", w>>] :
                 w \in IF Deep(st.al) THEN {"given", "mentioned", "other"}
                       ELSE {"given", "mentioned"}}
Seen(C, st) == SelectSeq(st.kid, LAMBDA e : Al(st.al, e[1])[1])
AKeys(C, st) == LET s == Seen(C, st) IN [i \in 1..Len(s) |-> Al(st.al, s[i][1])[2]]
AVals(C, st) == LET s == Seen(C, st) IN [i \in 1..Len(s) |-> s[i][2]]
AItems(C, st) == LET s == Seen(C, st) IN [i \in 1..Len(s) |-> <<Al(st.al, s[i][1])[2], s[i][2]>>]
With(st, k) == [st EXCEPT !.kid = Drop(@, k)]
Store(st, k, v) == [st EXCEPT !.kid = Put(@, k, v)]
RECURSIVE StoreAll(_, _, _)
StoreAll(C, st, items) ==
    IF items = <<>> THEN Res(st, <<"ok">>)
    ELSE LET u == Un(st.al, items[1][1])
         IN IF u[1] THEN StoreAll(C, Store(st, u[2], items[1][2]), Tail(items)) ELSE Bad(C, st)

\* the pairs of a mapping, reversed
RPos(s, v) == LET I == {i \in 1..Len(s) : s[i][2] = v}
              IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Step(C, st, op) ==
    LET k == op.k
        u == Un(st.al, k)
        p == IF u[1] THEN Pos(st.kid, u[2]) ELSE 0
    IN
    CASE op.o = "alias" ->
           LET r == Al(st.al, k) IN IF r[1] THEN Res(st, <<"ok", r[2]>>) ELSE Bad(C, st)
      [] op.o = "unalias" -> IF u[1] THEN Res(st, <<"ok", u[2]>>) ELSE Bad(C, st)
      [] op.o = "map" -> Res([st EXCEPT !.al.pairs = Put(@, k, op.r)], <<"ok">>)
      [] op.o = "unmap" -> IF Pos(st.al.pairs, k) = 0 THEN Res(st, <<"err", "KeyError", "given">>)
                           ELSE Res([st EXCEPT !.al.pairs = Drop(@, k)], <<"ok">>)
      [] op.o = "setal" -> Res([st EXCEPT !.al = op.al], <<"ok">>)
      \* the unaliased node
      [] op.o = "rawset" -> Res(Store(st, k, op.v), <<"ok">>)
      [] op.o = "rawdel" -> Res(With(st, k), <<"ok">>)
      [] op.o = "raw" -> Res(st, <<"ok", st.kid>>)
      \* the node with aliaser
      [] op.o = "get" -> IF ~u[1] THEN Bad(C, st) ELSE IF p = 0 THEN Given(st)
                         ELSE Res(st, <<"ok", st.kid[p][2]>>)
      [] op.o = "getdef" -> IF p = 0 THEN Res(st, <<"ok", "default">>)
                            ELSE Res(st, <<"ok", st.kid[p][2]>>)
      [] op.o = "in" -> Res(st, <<"ok", IF p = 0 THEN "F" ELSE "T">>)
      [] op.o = "set" -> IF u[1] THEN Res(Store(st, u[2], op.v), <<"ok">>) ELSE Bad(C, st)
      \* op.e: the error of the backend
      [] op.o \in {"setfail", "getfail", "delfail"} ->
           IF ~u[1] THEN Bad(C, st) ELSE IF op.e = "KeyError" THEN Given(st)
           ELSE Res(st, <<"err", op.e>>)
      [] op.o = "setdefault" -> IF ~u[1] THEN Bad(C, st)
                                ELSE IF p # 0 THEN Res(st, <<"ok", st.kid[p][2]>>)
                                ELSE Res(Store(st, u[2], op.v), <<"ok", op.v>>)
      [] op.o = "update" -> StoreAll(C, st, op.items)
      [] op.o = "del" -> IF ~u[1] THEN Bad(C, st) ELSE IF p = 0 THEN Given(st)
                         ELSE Res(With(st, u[2]), <<"ok">>)
      [] op.o = "pop" -> IF ~u[1] THEN Bad(C, st) ELSE IF p = 0 THEN Given(st)
                         ELSE Res(With(st, u[2]), <<"ok", st.kid[p][2]>>)
      [] op.o = "popdef" -> IF p = 0 THEN Res(st, <<"ok", "default">>)
                            ELSE Res(With(st, u[2]), <<"ok", st.kid[p][2]>>)
      [] op.o = "popitem" ->
           LET s == Seen(C, st)  e == s[Len(s)] IN
           IF s = <<>> THEN Res(st, <<"err", "KeyError", "empty">>)
           ELSE Res(With(st, e[1]), <<"ok", Al(st.al, e[1])[2], e[2]>>)
      [] op.o = "clear" ->
           Res([st EXCEPT !.kid = SelectSeq(@, LAMBDA e : ~Al(st.al, e[1])[1])], <<"ok">>)
      [] op.o = "keys" -> Res(st, <<"ok", AKeys(C, st)>>)
      [] op.o = "values" -> Res(st, <<"ok", AVals(C, st)>>)
      [] op.o = "items" -> Res(st, <<"ok", AItems(C, st)>>)
      [] op.o = "len" -> Res(st, <<"ok", Len(Seen(C, st))>>)
      \* the content of the unaliased node, reversed
      [] op.o = "rget" -> LET q == RPos(st.kid, op.v) IN
                          IF q = 0 THEN Given(st) ELSE Res(st, <<"ok", st.kid[q][1]>>)
      [] op.o = "rgetdef" -> LET q == RPos(st.kid, op.v) IN
                             Res(st, <<"ok", IF q = 0 THEN <<"default">> ELSE st.kid[q][1]>>)
      [] op.o = "rin" -> Res(st, <<"ok", IF RPos(st.kid, op.v) = 0 THEN "F" ELSE "T">>)
      [] op.o = "rkeys" -> Res(st, <<"ok", [i \in 1..Len(st.kid) |-> st.kid[i][2]]>>)
      [] op.o = "rvalues" -> Res(st, <<"ok", [i \in 1..Len(st.kid) |-> st.kid[i][1]]>>)
      [] op.o = "ritems" -> Res(st, <<"ok", [i \in 1..Len(st.kid) |->
                                              <<st.kid[i][2], st.kid[i][1]>>]>>)
      [] op.o = "rlen" -> Res(st, <<"ok", Len(st.kid)>>)

Enum == {"keys", "values", "items", "len", "popitem", "clear"}
InDomain(C, st, op) ==
    \* every stored key has an alias of its own, which leads back to it
    /\ op.o \in Enum =>
         /\ \A i \in 1..Len(st.kid) :
              LET r == Al(st.al, st.kid[i][1])
              IN IF r[1] THEN Un(st.al, r[2]) = Yes(st.kid[i][1]) ELSE st.al.t = "dict"
    /\ op.o \in {"alias", "unalias"} => st.al.t # "none"
    /\ op.o \in {"map", "unmap"} => st.al.t = "dict"
    /\ op.o = "map" => \A i \in 1..Len(st.al.pairs) :
                         st.al.pairs[i][2] = op.r => st.al.pairs[i][1] = op.k
=============================================================================
