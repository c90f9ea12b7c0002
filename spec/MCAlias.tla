----------------------------- MODULE MCAlias -----------------------------
(* Exhaustive model of Alias over the characters x and y.                  *)
EXTENDS Alias, Json
CONSTANTS WIDE
VARIABLES cid, st
vars == <<cid, st>>
X == <<"x">>  Y == <<"y">>  E == <<>>
P(s) == [t |-> "prefix", x |-> s]
S(s) == [t |-> "suffix", x |-> s]
B(p, s) == [t |-> "both", p |-> p, s |-> s]
Ch(ps) == [t |-> "chain", parts |-> ps]
D(strict, ps) == [t |-> "dict", strict |-> strict, pairs |-> ps]
Als == << [t |-> "none"], P(X), P(E), P(X \o Y), S(Y), S(E), S(Y \o X),
          B(X, Y), B(X, X), B(E, Y), B(X, E), B(E, E), B(X \o Y, Y),
          D("T", <<<<X, Y>>, <<Y, X>>>>), D("T", <<<<X, X \o X>>, <<E, Y>>>>),
          D("T", <<>>), D("F", <<<<X, Y>>>>), D("F", <<<<X \o X, E>>, <<Y, X>>>>),
          D("F", <<>>),
          Ch(<<>>), Ch(<<P(X), S(Y)>>), Ch(<<P(X), P(Y)>>), Ch(<<S(X), S(Y)>>),
          Ch(<<D("T", <<<<X, Y>>, <<Y, E>>>>), P(X)>>),
          Ch(<<P(Y), D("T", <<<<X, Y \o X>>, <<E, Y \o Y>>>>)>>),
          Ch(<<B(X, Y), D("F", <<<<E, X \o Y>>>>), S(X)>>) >>
Confs == [i \in 1..Len(Als) |-> [al |-> Als[i], ord |-> IF i % 4 = 2 THEN "F" ELSE "T"]]

Texts(n) == UNION {[1..m -> {"x", "y"}] : m \in 0..n}
\* other aliasers the node may get (of the first ones only)
NewAls == {[t |-> "none"], S(X), D("T", <<<<Y, X>>>>)}
Raw == {<<>>, X, Y, X \o X}
Alt == IF WIDE THEN Texts(3) ELSE Texts(2) \cup {<<"x", "x", "y">>, <<"x", "y", "y">>, <<"y", "x", "x">>}
Vals == {"v", "w"}
Ops(C) ==
       [o : {"alias", "unalias", "get", "getdef", "in", "del", "pop", "popdef"}, k : Alt]
    \cup [o : {"rawset"}, k : Raw, v : Vals]
    \cup [o : {"rawdel"}, k : Raw]
    \cup [o : {"set", "setdefault"}, k : Alt, v : {"v"}]
    \cup [o : {"setfail", "getfail", "delfail"}, k : Alt, e : {"KeyError", "ValueError"}]
    \cup [o : {"map"}, k : {X, Y}, r : {X, X \o X}]
    \cup [o : {"unmap"}, k : {X, Y}]
    \cup [o : {"setal"}, k : {E}, al : NewAls]
    \cup [o : {"update"}, k : {E}, items : {<<<<X, "w">>, <<Y, "v">>>>, <<<<X \o Y, "v">>, <<E, "w">>>>}]
    \cup [o : {"raw", "popitem", "clear", "keys", "values", "items", "len",
               "rkeys", "rvalues", "ritems", "rlen"}, k : {E}]
    \cup [o : {"rget", "rgetdef", "rin"}, k : {E}, v : Vals \cup {"u"}]

\* configurations in which dictionaries change, and in which the aliaser changes
MAPS == {14, 17}
SETS == {8}
Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ PrintT("I " \o ToJson(<<cid, st>>))
Small(s) == Len(s.kid) <= IF cid \in MAPS \cup SETS THEN 1 ELSE IF WIDE THEN 3 ELSE 2
Next == LET C == Confs[cid] IN
        \E op \in Ops(C) :
          /\ InDomain(C, st, op) = TRUE
          /\ op.o \in {"map", "unmap"} => cid \in MAPS
          /\ op.o = "setal" => cid \in SETS
          /\ \E r \in Step(C, st, op) :
               /\ Small(r.st)
               /\ st' = r.st
               /\ cid' = cid
               /\ PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
AA == st.al
\* translating a real key and back yields the key (unlisted keys of a
\* non strict dictionary may collide with an alias)
RECURSIVE Soft(_)
Soft(a) == \/ a.t = "dict" /\ a.strict = "F"
           \/ a.t = "chain" /\ \E i \in 1..Len(a.parts) : Soft(a.parts[i])
RoundTrip == \A k \in Texts(3) : LET r == Al(AA, k) IN
                r[1] /\ ~Soft(AA) => Un(AA, r[2]) = Yes(k)
BackTrip == \A k \in Texts(3) : LET r == Un(AA, k) IN
                r[1] /\ ~Soft(AA) => Al(AA, r[2]) = Yes(k)
Injective == \A k, l \in Texts(3) : Al(AA, k)[1] /\ Al(AA, k) = Al(AA, l) /\ ~Soft(AA)
                => k = l
\* both is the chain of its parts
BothIsChain == AA.t = "both" => \A k \in Texts(3) :
                 /\ Un(AA, k) = Un(Ch(<<P(AA.p), S(AA.s)>>), k)
                 /\ Al(AA, k) = Al(Ch(<<P(AA.p), S(AA.s)>>), k)
\* reading through the aliases shows the unaliased content
View == InDomain(C0, st, [o |-> "keys", k |-> E]) = TRUE =>
          \A i \in 1..Len(st.kid) : LET r == Al(AA, st.kid[i][1]) IN
             r[1] => \A a \in Step(C0, st, [o |-> "get", k |-> r[2]]) :
                        a.out = <<"ok", st.kid[i][2]>>
=============================================================================
