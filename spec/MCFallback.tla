----------------------------- MODULE MCFallback -----------------------------
(* All trees with at most SIZE entries, all lookups.                         *)
EXTENDS Fallback, Json
CONSTANTS EMIT, SIZE
VARIABLES cid, st
vars == <<cid, st>>
Base(start, keys, vals, ths, kinds, fbs, size, del) ==
    [start |-> start, keys |-> keys, attrs |-> "@", vals |-> vals, ths |-> ths,
     kinds |-> kinds, fbs |-> fbs, size |-> size, del |-> del]
R == {<<>>}
Skeleton == {<<>>, <<"a">>, <<"a", "a">>, <<"x">>, <<"x", "a">>, <<"x", "x">>}
Deep == {<<>>, <<"a">>, <<"a", "a">>, <<"a", "a", "a">>, <<"x">>, <<"x", "a">>, <<"x", "x">>,
         <<"a", "x">>, <<"a", "x", "a">>}
Confs == <<
  \* shapes: two keys, fallback declared anywhere
  Base(R, {"a", "x"}, {}, {"t0"}, {"F"}, {"", "x"}, SIZE, "T"),
  \* values at the leaves
  Base(R, {"a", "x"}, {"m"}, {"t0"}, {"F"}, {"", "x"}, SIZE - 1, "T"),
  \* nodes without fallback in between, two fallback keys
  Base(R, {"a", "x"}, {}, {"t0"}, {"F", "N"}, {"", "x", "a"}, SIZE - 1, "T"),
  \* attribute nodes
  Base(R, {"a", "x", "@"}, {"u"}, {"t0"}, {"F"}, {"", "x"}, SIZE - 1, "T"),
  \* threads
  Base(R, {"a", "x"}, {}, {"t0", "t1", "t2"}, {"F"}, {"", "x"}, SIZE - 2, "T"),
  \* nested fallbacks
  Base(Skeleton, {"a", "x"}, {}, {"t0"}, {"F"}, {"", "x"}, SIZE + 2, "F"),
  Base(Deep, {"a", "x"}, {}, {"t0"}, {"F"}, {"", "x"}, SIZE + 4, "F") >>

Paths(st0) == {e.p : e \in {e \in st0.e : e.k # "V"}}
Ops(C, s) ==
    LET P == Paths(s)  T == C.ths IN
         [o : {"add"}, p : P, key : C.keys, k : C.kinds, v : {""}, fb : {""}]
    \cup [o : {"add"}, p : P, key : C.keys \ {C.attrs}, k : {"V"}, v : C.vals, fb : {""}]
    \cup [o : {"declare"}, p : P, fb : C.fbs]
    \cup [o : {"del"}, p : IF C.del = "T" THEN P ELSE {}, key : C.keys]
    \cup [o : {"look"}, how : {"read"}, t : T, p : P, key : C.keys]
    \cup [o : IF T = {"t0"} THEN {} ELSE {"lookfail"}, how : {"read"}, t : T, p : P, key : C.keys]
    \cup [o : {"start"}, how : {"read"}, t : T, p : P, key : C.keys]
    \cup [o : {"finish"}, t : T]

Init == /\ cid \in 1..Len(Confs)
        /\ st \in Init0(Confs[cid])
        /\ EMIT => PrintT("C " \o ToJson(<<cid, Confs[cid]>>))
        /\ EMIT => PrintT("I " \o ToJson(<<cid, st>>))
Next == LET C == Confs[cid] IN
        \E op \in Ops(C, st) :
          /\ InDomain(C, st, op) = TRUE
          /\ \E r \in Step(C, st, op) :
               /\ Cardinality(r.st.e) <= C.size
               /\ st' = r.st
               /\ cid' = cid
               /\ EMIT => PrintT("E " \o ToJson(<<cid, st, op, r.out, r.st>>))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
C0 == Confs[cid]
LookPairs == {<<p, k>> \in Paths(st) \X C0.keys : ~Find(st, p, k).bad}
\* own children win
OwnFirst == \A x \in LookPairs : Has(st, Append(x[1], x[2])) =>
                Find(st, x[1], x[2]).p = Append(x[1], x[2])
\* what is found lies at the same remaining path below a fallback child of
\* an ancestor, or below one reached that way
Sound == \A x \in LookPairs :
    LET w == Find(st, x[1], x[2])  path == Append(x[1], x[2]) IN
    w.hit => /\ Has(st, w.p)
             /\ Len(w.p) = Len(path)
             /\ w.p[Len(path)] = x[2] \/ (\E e \in st.e : e.fb = w.p[Len(path)])
\* if the path exists below the fallback child of some ancestor, the lookup hits
Complete == \A x \in LookPairs :
    LET path == Append(x[1], x[2]) IN
    (At(st, x[1]).k = "F"
     /\ \E n \in 0..Len(x[1]) - 1 : LET e == At(st, SubSeq(path, 1, n)) IN
          e.fb # "" /\ Has(st, Append(e.p, e.fb) \o SubSeq(path, n + 2, Len(path))))
    => Find(st, x[1], x[2]).hit
\* and the nearest such ancestor is preferred to the ones above it
Nearest == \A x \in LookPairs :
    LET path == Append(x[1], x[2])
        D == {n \in 0..Len(x[1]) - 1 : LET e == At(st, SubSeq(path, 1, n)) IN
                e.fb # "" /\ Has(st, Append(e.p, e.fb))}
        n == CHOOSE n \in D : \A m \in D : m <= n
        q == Append(SubSeq(path, 1, n), At(st, SubSeq(path, 1, n)).fb)
                \o SubSeq(path, n + 2, Len(path))
    IN ~Has(st, path) /\ At(st, x[1]).k = "F" /\ D # {} /\ Has(st, q) => Find(st, x[1], x[2]).p = q
\* without a declaration nothing but own children is found
NoFallback == (\A e \in st.e : e.fb = "") =>
    \A x \in LookPairs : Find(st, x[1], x[2]).hit = Has(st, Append(x[1], x[2]))
Tree == \A e \in st.e : e.p = <<>> \/ IsNode(st, Parent(e.p))
=============================================================================
