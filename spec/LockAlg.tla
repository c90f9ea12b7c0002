------------------------------ MODULE LockAlg ------------------------------
(* How TreeLock works, step by step: the lock is an attribute of the root,   *)
(* created on first use under one global lock.  All interleavings of         *)
(* threads entering and leaving sections, nested up to DEPTH.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Trees, DEPTH
VARIABLES pc, tree, held, attr, guard, locks, fresh, leaving
vars == <<pc, tree, held, attr, guard, locks, fresh, leaving>>
(* pc[t]     "out", "guard", "read", "make", "unguard", "acquire", "in"      *)
(* tree[t]   the tree t is entering        held[t]  stack of <<tree, lock>>  *)
(* attr[x]   lock of tree x, 0 if none yet          guard  global lock       *)
(* locks[l]  <<owner, count>>                                                *)
(* leaving   threads which began to leave; they enter nothing before they    *)
(*           left everything, so every section ends (Progress needs that)    *)
NOBODY == "nobody"
Locks == 1..Cardinality(Trees) + 1
Init == /\ pc = [t \in Threads |-> "out"]
        /\ tree = [t \in Threads |-> CHOOSE x \in Trees : TRUE]
        /\ held = [t \in Threads |-> <<>>]
        /\ attr = [x \in Trees |-> 0]
        /\ guard = NOBODY
        /\ locks = [l \in Locks |-> <<NOBODY, 0>>]
        /\ fresh = 1
        /\ leaving = {}
Begin(t, x) == /\ pc[t] \in {"out", "in"} /\ Len(held[t]) < DEPTH
               /\ t \notin leaving
               \* trees are entered in one order, as users have to
               /\ \A i \in 1..Len(held[t]) : held[t][i][1] <= x
               /\ pc' = [pc EXCEPT ![t] = "guard"] /\ tree' = [tree EXCEPT ![t] = x]
               /\ UNCHANGED <<held, attr, guard, locks, fresh, leaving>>
Guard(t) == /\ pc[t] = "guard" /\ guard = NOBODY
            /\ guard' = t /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<tree, held, attr, locks, fresh, leaving>>
Read(t) == /\ pc[t] = "read"
           /\ pc' = [pc EXCEPT ![t] = IF attr[tree[t]] = 0 THEN "make" ELSE "unguard"]
           /\ UNCHANGED <<tree, held, attr, guard, locks, fresh, leaving>>
Make(t) == /\ pc[t] = "make"
           /\ attr' = [attr EXCEPT ![tree[t]] = fresh] /\ fresh' = fresh + 1
           /\ pc' = [pc EXCEPT ![t] = "unguard"]
           /\ UNCHANGED <<tree, held, guard, locks, leaving>>
Unguard(t) == /\ pc[t] = "unguard" /\ guard' = NOBODY /\ pc' = [pc EXCEPT ![t] = "acquire"]
              /\ UNCHANGED <<tree, held, attr, locks, fresh, leaving>>
Acquire(t) == LET l == attr[tree[t]] IN
              /\ pc[t] = "acquire" /\ locks[l][1] \in {NOBODY, t}
              /\ locks' = [locks EXCEPT ![l] = <<t, @[2] + 1>>]
              /\ held' = [held EXCEPT ![t] = Append(@, <<tree[t], l>>)]
              /\ pc' = [pc EXCEPT ![t] = "in"]
              /\ UNCHANGED <<tree, attr, guard, fresh, leaving>>
Release(t) == LET h == held[t][Len(held[t])]  l == h[2] IN
              /\ pc[t] = "in"
              /\ locks' = [locks EXCEPT ![l] = IF @[2] = 1 THEN <<NOBODY, 0>> ELSE <<t, @[2] - 1>>]
              /\ held' = [held EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
              /\ pc' = [pc EXCEPT ![t] = IF Len(held[t]) = 1 THEN "out" ELSE "in"]
              /\ leaving' = IF Len(held[t]) = 1 THEN leaving \ {t} ELSE leaving \cup {t}
              /\ UNCHANGED <<tree, attr, guard, fresh>>
Move(t) == Guard(t) \/ Read(t) \/ Make(t) \/ Unguard(t) \/ Acquire(t)
Next == \E t \in Threads : Move(t) \/ Release(t) \/ \E x \in Trees : Begin(t, x)
Spec == /\ Init /\ [][Next]_vars
        /\ \A t \in Threads : SF_vars(Guard(t)) /\ WF_vars(Read(t)) /\ WF_vars(Make(t))
             /\ WF_vars(Unguard(t)) /\ SF_vars(Acquire(t)) /\ SF_vars(Release(t))
---------------------------------------------------------------------------
In(t, x) == \E i \in 1..Len(held[t]) : held[t][i][1] = x
Mutex == \A t, u \in Threads, x \in Trees : In(t, x) /\ In(u, x) => t = u
OneLock == \A x \in Trees, t \in Threads : \A i \in 1..Len(held[t]) :
              held[t][i][1] = x => held[t][i][2] = attr[x]
Counts == \A t \in Threads, x \in Trees : attr[x] # 0 =>
    LET n == Cardinality({i \in 1..Len(held[t]) : held[t][i][1] = x}) IN
    n > 0 => locks[attr[x]] = <<t, n>>
Freed == \A x \in Trees : attr[x] # 0 /\ (\A t \in Threads : ~In(t, x)) =>
             locks[attr[x]] = <<NOBODY, 0>>
\* whoever wants to enter enters
Progress == \A t \in Threads : (pc[t] = "guard") ~> (pc[t] = "in")
=============================================================================
