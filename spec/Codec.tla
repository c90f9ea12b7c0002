------------------------------- MODULE Codec -------------------------------
(* Encoding and decoding of nested values.                                   *)
(* term   <<"u", <<code points>>>>  text      <<"b", <<octets>>>>  bytes     *)
(*        <<"L", <<terms>>>>  list            <<"T", <<terms>>>>   tuple     *)
(*        <<"D", <<<<key, term>>>>>> dict     <<"N", <<<<key, term>>>>>> node*)
(*        <<"o", x>>  anything else                                          *)
(* st.v[s] term in slot s, or None                                           *)
(* The results of encoding and decoding are values of their own: a later     *)
(* change of one of them does not show in the other.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

None == <<"-", "-">>
Err(x) == <<"err", x>>
IsErr(t) == t[1] = "err"
Text(x) == <<"u", x>>
Bytes(x) == <<"b", x>>

------------------------------- \* encodings; Err if not possible
Limit(e) == IF e = "ascii" THEN 128 ELSE 256
Utf8Enc1(c) ==
    CASE c < 128 -> <<c>>
      [] c >= 128 /\ c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
      [] c >= 2048 /\ c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] c >= 65536 -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                         128 + ((c \div 64) % 64), 128 + (c % 64)>>
Surrogate(c) == c >= 55296 /\ c < 57344
EncText(e, x) ==
    IF e = "utf-8"
    THEN IF \E i \in 1..Len(x) : Surrogate(x[i]) THEN Err("UnicodeEncodeError")
         ELSE Bytes(FlattenSeq([i \in 1..Len(x) |-> Utf8Enc1(x[i])]))
    ELSE IF \E i \in 1..Len(x) : x[i] >= Limit(e) THEN Err("UnicodeEncodeError") ELSE Bytes(x)
Cont(x, i) == i <= Len(x) /\ x[i] >= 128 /\ x[i] < 192
\* number of octets of the character at i, 0 if it is none
Utf8Len(x, i) ==
    LET b == x[i]  c == IF i < Len(x) THEN x[i + 1] ELSE 0 IN
    CASE b < 128 -> 1
      [] b >= 194 /\ b < 224 -> IF Cont(x, i + 1) THEN 2 ELSE 0
      [] b >= 224 /\ b < 240 ->
            IF Cont(x, i + 1) /\ Cont(x, i + 2) /\ (b = 224 => c >= 160) /\ (b = 237 => c < 160)
            THEN 3 ELSE 0
      [] b >= 240 /\ b < 245 ->
            IF Cont(x, i + 1) /\ Cont(x, i + 2) /\ Cont(x, i + 3) /\ (b = 240 => c >= 144)
               /\ (b = 244 => c < 144) THEN 4 ELSE 0
      [] OTHER -> 0
Utf8Dec1(x, i, n) ==
    CASE n = 1 -> x[i]
      [] n = 2 -> (x[i] - 192) * 64 + x[i + 1] - 128
      [] n = 3 -> (x[i] - 224) * 4096 + (x[i + 1] - 128) * 64 + x[i + 2] - 128
      [] n = 4 -> (x[i] - 240) * 262144 + (x[i + 1] - 128) * 4096 + (x[i + 2] - 128) * 64
                    + x[i + 3] - 128
RECURSIVE Utf8Dec(_, _)
Utf8Dec(x, i) ==
    IF i > Len(x) THEN Text(<<>>)
    ELSE LET n == Utf8Len(x, i) IN
         IF n = 0 THEN Err("UnicodeDecodeError")
         ELSE LET r == Utf8Dec(x, i + n) IN
              IF IsErr(r) THEN r ELSE Text(<<Utf8Dec1(x, i, n)>> \o r[2])
DecBytes(e, x) ==
    IF e = "utf-8" THEN Utf8Dec(x, 1)
    ELSE IF \E i \in 1..Len(x) : x[i] >= Limit(e) THEN Err("UnicodeDecodeError") ELSE Text(x)

------------------------------- \* structures
RECURSIVE Conv(_, _)
FirstErr(ts) == ts[CHOOSE i \in 1..Len(ts) : IsErr(ts[i]) /\ \A j \in 1..(i - 1) : ~IsErr(ts[j])]
HasErr(ts) == \E i \in 1..Len(ts) : IsErr(ts[i])
\* m.how "enc" or "dec", m.e encoding, m.soft, m.strict: what encoding does to
\* bytes which are not valid in strict mode
Conv(m, t) ==
    CASE t[1] = "u" -> IF m.how = "enc" THEN EncText(m.e, t[2]) ELSE t
      [] t[1] = "b" -> LET d == DecBytes(m.e, t[2]) IN
            IF m.how = "dec" THEN (IF IsErr(d) /\ m.soft = "T" THEN t ELSE d)
            ELSE IF IsErr(d) /\ m.soft = "F" /\ m.strict = "raise" THEN d ELSE t
      [] t[1] = "o" -> t
      [] t[1] \in {"L", "T"} ->
            LET r == [i \in 1..Len(t[2]) |-> Conv(m, t[2][i])] IN
            IF HasErr(r) THEN FirstErr(r) ELSE <<t[1], r>>
      [] t[1] \in {"D", "N"} ->
            LET n == Len(t[2])
                k == [i \in 1..n |-> Conv(m, t[2][i][1])]
                v == [i \in 1..n |-> Conv(m, t[2][i][2])]
                kv == [i \in 1..2 * n |-> IF i % 2 = 1 THEN k[(i + 1) \div 2] ELSE v[i \div 2]]
            IN IF HasErr(kv) THEN FirstErr(kv)
               ELSE <<"D", [i \in 1..n |-> <<k[i], v[i]>>]>>
\* keys which differ may be converted to the same key: no result keeps the shape then
RECURSIVE Clash(_)
Keys(t) == {t[2][i][1] : i \in 1..Len(t[2])}
Clash(t) ==
    CASE t[1] \in {"L", "T"} -> \E i \in 1..Len(t[2]) : Clash(t[2][i])
      [] t[1] \in {"D", "N"} -> \/ Cardinality(Keys(t)) < Len(t[2])
                                \/ \E i \in 1..Len(t[2]) : Clash(t[2][i][2])
      [] OTHER -> FALSE
Mode(op, strict) == [how |-> op.o, e |-> op.e, soft |-> op.f, strict |-> strict]

------------------------------- \* places inside of a value
RECURSIVE HasPath(_, _), At(_, _), Repl(_, _, _)
Seqs(t) == IF t[1] \in {"L", "T", "D", "N"} THEN Len(t[2]) ELSE 0
HasPath(t, p) == p = <<>> \/ (Head(p) <= Seqs(t) /\
    HasPath(IF t[1] \in {"L", "T"} THEN t[2][Head(p)] ELSE t[2][Head(p)][2], Tail(p)))
At(t, p) == IF p = <<>> THEN t
            ELSE At(IF t[1] \in {"L", "T"} THEN t[2][Head(p)] ELSE t[2][Head(p)][2], Tail(p))
Repl(t, p, x) == IF p = <<>> THEN x
                 ELSE IF t[1] \in {"L", "T"} THEN <<t[1], [t[2] EXCEPT ![Head(p)] = Repl(@, Tail(p), x)]>>
                 ELSE <<t[1], [t[2] EXCEPT ![Head(p)] = <<@[1], Repl(@[2], Tail(p), x)>>]>>
New == Text(<<110, 101, 119>>)
Grown(t) == CASE t[1] = "L" -> <<"L", Append(t[2], <<"o", "n">>)>>
              [] t[1] \in {"D", "N"} -> <<t[1], Append(t[2], <<New, <<"N", <<>>>>>>)>>

\* a value which is to be encoded may have several faults
Result(op, r) == IF ~IsErr(r) THEN "ok" ELSE IF op.o = "enc" THEN "UnicodeError" ELSE r[2]
Init0(C) == {[v |-> [s \in C.slots |-> None]]}
Step(C, st, op) ==
    CASE op.o = "put" -> LET s == [v |-> [st.v EXCEPT ![op.s] = op.v]] IN {[st |-> s, out |-> <<"ok", s.v>>]}
      [] op.o = "grow" ->
           LET s == [v |-> [st.v EXCEPT ![op.s] = Repl(@, op.p, Grown(At(@, op.p)))]]
           IN {[st |-> s, out |-> <<"ok", s.v>>]}
      [] op.o \in {"enc", "dec"} ->
           {LET r == Conv(Mode(op, x), st.v[op.s])
                s == IF IsErr(r) THEN st ELSE [v |-> [st.v EXCEPT ![op.t] = r]]
            IN [st |-> s, out |-> <<Result(op, r), s.v>>] : x \in {"raise", "leave"}}
InDomain(C, st, op) ==
    CASE op.o = "put" -> ~Clash(op.v)
      [] op.o = "grow" ->
           /\ st.v[op.s] # None /\ HasPath(st.v[op.s], op.p)
           /\ LET t == At(st.v[op.s], op.p) IN
              /\ t[1] \in {"L", "D", "N"}
              /\ t[1] \in {"D", "N"} => \A k \in Keys(t) : k \notin {New, Bytes(New[2])}
      [] op.o \in {"enc", "dec"} ->
           /\ st.v[op.s] # None
           /\ LET r == Conv(Mode(op, "leave"), st.v[op.s]) IN IsErr(r) \/ ~Clash(r)
=============================================================================
