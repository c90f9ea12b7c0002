------------------------------ MODULE MCCodec ------------------------------
EXTENDS Codec, Json
CONSTANTS EMIT, MORE
VARIABLES cid, st
vars == <<cid, st>>
\* abc, u umlaut, snowman, emoji, a surrogate
Words == {<<>>, <<97, 98>>, <<252>>, <<9731>>, <<128512, 97>>, <<55296>>}
\* valid in various encodings, cut off, overlong, surrogate, too large
Octs == {<<>>, <<97>>, <<252>>, <<195, 188>>, <<226, 152, 131>>, <<97, 226, 152>>, <<192, 175>>,
         <<237, 160, 128>>, <<240, 159, 152, 128>>, <<244, 144, 128, 128>>, <<128>>, <<224, 130, 131>>}
Other == {"n", "i", "f", "s", "a", "x", "y", "c"}
O(x) == <<"o", x>>
L0 == {Text(w) : w \in Words} \cup {Bytes(x) : x \in Octs} \cup {O(x) : x \in Other}
\* some leaves for nested structures
S0 == {Text(<<97, 98>>), Text(<<9731>>), Bytes(<<252>>), Bytes(<<97>>), O("y")}
T0 == {Text(<<252>>), Bytes(<<195, 188>>), O("n")}
Key0 == {Text(<<>>), Text(<<252>>), Bytes(<<97>>), Bytes(<<252>>), O("n"), <<"T", <<Text(<<97>>)>>>>}
Seq1(S) == {<<x, <<v>>>> : x \in {"L", "T"}, v \in S}
Seq2(S) == {<<x, <<v, w>>>> : x \in {"L", "T"}, v \in S, w \in S}
Map1(K, S) == {<<x, << <<k, v>> >>>> : x \in {"D", "N"}, k \in K, v \in S}
Map2(K, S) == {<<x, << <<k, v>>, <<l, w>> >>>> : x \in {"D", "N"}, k \in K, l \in K, v \in S, w \in S}
Empty == {<<x, <<>>>> : x \in {"L", "T", "D", "N"}}
V1 == Empty \cup Seq1(L0) \cup Seq2(S0) \cup Map1(Key0, S0)
W1 == Empty \cup Seq2(T0) \cup Map1({Text(<<252>>), Bytes(<<252>>)}, T0)
V2 == Seq1(W1) \cup Seq2(Empty) \cup Map1({Text(<<97>>)}, W1) \cup Map2({Text(<<97>>), Text(<<9731>>)}, T0)
      \cup {<<"L", <<O("n"), v, Text(<<252>>)>>>> : v \in W1}
V3 == Seq1(Seq1(W1)) \cup Map1({Text(<<252>>)}, Map1({Text(<<97>>)}, W1)) \cup Map1({O("n")}, Seq1(W1))
Good(S) == {v \in S : ~Clash(v)}
Encs == {"utf-8", "latin-1", "ascii"}
Confs == <<
  [slots |-> {"s", "t"}, vals |-> L0 \cup Good(V1), grow |-> 0, encs |-> Encs],
  [slots |-> {"s", "t"}, vals |-> Good(V2), grow |-> 0, encs |-> Encs],
  [slots |-> {"s", "t"}, vals |-> Empty \cup Seq1(Empty) \cup Map1({Text(<<97>>)}, Empty)
        \cup {<<"L", <<O("n"), <<"D", << <<O("n"), <<"L", <<>>>>>> >>>>>>>>,
              <<"N", << <<Text(<<97>>), <<"N", <<>>>>>>, <<Text(<<98>>), <<"L", <<>>>>>> >>>>},
   grow |-> 1, encs |-> {"utf-8"}],
  [slots |-> {"s", "t"}, vals |-> IF MORE > 0 THEN Good(V3) ELSE {}, grow |-> 0, encs |-> Encs] >>
RECURSIVE Paths(_), Leaves(_)
Paths(t) == {<<>>} \cup (IF t = None THEN {} ELSE
               UNION {{<<i>> \o p : p \in Paths(At(t, <<i>>))} : i \in 1..Seqs(t)})
Leaves(t) == CASE t[1] \in {"L", "T"} -> UNION {Leaves(t[2][i]) : i \in 1..Len(t[2])}
               [] t[1] \in {"D", "N"} -> UNION {Leaves(t[2][i][1]) \cup Leaves(t[2][i][2]) : i \in 1..Len(t[2])}
               [] OTHER -> {t}
Long(t) == \E l \in Leaves(t) : l[1] \in {"u", "b"} /\ Len(l[2]) > 2
Ops(C, s0) ==
      {x \in [o : {"put"}, s : {"s"}, v : C.vals] : s0.v["s"] = None}
    \cup UNION {[o : {"grow"}, s : {x}, p : IF C.grow > 0 THEN Paths(s0.v[x]) ELSE {}] : x \in C.slots}
    \cup [o : {"enc", "dec"}, s : {"s"}, t : IF C.grow > 0 THEN {"s", "t"} ELSE {"t"}, e : C.encs,
           f : {"T", "F"}]
    \* texts get longer and longer if encodings are mixed up
    \cup (IF C.grow > 0 \/ s0.v["t"] = None \/ Long(s0.v["t"]) THEN {}
          ELSE [o : {"enc", "dec"}, s : {"t"}, t : {"t"}, e : C.encs, f : {"T"}])
Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ EMIT => PrintT("C " \o ToJson(<<cid, [slots |-> Confs[cid].slots]>>))
        /\ EMIT => PrintT("I " \o ToJson(<<cid, st>>))
RECURSIVE Nodes(_), Sum(_, _)
Sum(t, i) == IF i = 0 THEN 0 ELSE Nodes(At(t, <<i>>)) + Sum(t, i - 1)
Nodes(t) == 1 + (IF t = None THEN 0 ELSE Sum(t, Seqs(t)))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C, st) :
          /\ InDomain(C, st, op) = TRUE
          /\ op.o = "grow" => Nodes(st.v[op.s]) < 4 + MORE
          \* conversions of the second value: one after the other
          /\ op.o \in {"enc", "dec"} /\ op.s = "t" =>
                \E r \in Step(C, st, op) : r.st # st \/ r.out[1] # "ok"
          /\ \E r \in Step(C, st, op) :
               /\ st' = r.st
               /\ cid' = cid
               /\ EMIT => PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
RECURSIVE Plain(_), Shape(_)
\* the same value with dictionaries instead of nodes
Plain(t) == CASE t[1] \in {"L", "T"} -> <<t[1], [i \in 1..Len(t[2]) |-> Plain(t[2][i])]>>
              [] t[1] \in {"D", "N"} -> <<"D", [i \in 1..Len(t[2]) |-> <<t[2][i][1], Plain(t[2][i][2])>>]>>
              [] OTHER -> t
Shape(t) == CASE t[1] \in {"L", "T"} -> <<t[1], [i \in 1..Len(t[2]) |-> Shape(t[2][i])]>>
              [] t[1] \in {"D", "N"} -> <<"D", [i \in 1..Len(t[2]) |-> <<Shape(t[2][i][1]), Shape(t[2][i][2])>>]>>
              [] t[1] \in {"u", "b"} -> <<"str">>
              [] OTHER -> t
M(how, e, f) == [how |-> how, e |-> e, soft |-> f, strict |-> "raise"]
For(P(_, _, _)) == \A s \in C0.slots, e \in C0.encs, f \in {"T", "F"} : st.v[s] # None => P(st.v[s], e, f)
RoundTrip == For(LAMBDA t, e, f :
    LET x == Conv(M("enc", e, f), t) IN
    ~IsErr(x) /\ (\A l \in Leaves(t) : l[1] # "b") => Conv(M("dec", e, f), x) = Plain(t))
Complete == For(LAMBDA t, e, f :
    LET x == Conv(M("enc", e, f), t)  y == Conv(M("dec", e, f), t) IN
    /\ ~IsErr(x) => \A l \in Leaves(x) : l[1] # "u"
    /\ ~IsErr(y) /\ f = "F" => \A l \in Leaves(y) : l[1] # "b"
    /\ ~IsErr(y) => \A l \in Leaves(y) : l[1] = "b" => l \in Leaves(t) /\ IsErr(DecBytes(e, l[2])))
Keeps == For(LAMBDA t, e, f : \A how \in {"enc", "dec"} :
    LET x == Conv(M(how, e, f), t) IN IsErr(x) \/ Shape(x) = Shape(t))
Soft == For(LAMBDA t, e, f : f = "T" => ~IsErr(Conv(M("dec", e, f), t)))
Again == For(LAMBDA t, e, f : \A how \in {"enc", "dec"} :
    LET x == Conv(M(how, e, f), t) IN IsErr(x) \/ Conv(M(how, e, f), x) = x)
=============================================================================
