------------------------------- MODULE TagMap -------------------------------
(* C08, C09. Tag maps: immutable maps from keys to values with a time-to-live, *)
(* made by applying mutators to the map of a context, and their wire codec.    *)
(* Strings are sequences of bytes.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen,          \* longest key or value
          MaxVarint,       \* longest varint, in bytes
          Big              \* saturation of decoded lengths
VARIABLES ctx              \* context number -> [none, m]: whether it has no tag map, and the map

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == << >>
Printable(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] <= 126
ValidKey(s)   == Len(s) >= 1 /\ Len(s) <= MaxLen /\ Printable(s)
ValidValue(s) == Len(s) <= MaxLen /\ Printable(s)

(* ------------------------------------------------------------ mutators *)
(* the last metadata prevails; the default is unlimited propagation *)
TTL(mds) == IF Len(mds) = 0 THEN "unlimited" ELSE mds[Len(mds)]
TagOf(m) == [v |-> m.v, ttl |-> TTL(m.mds)]
MutOK(m) == CASE m.op = "fail" -> FALSE
              [] m.op \in {"insert", "update", "upsert"} -> ValidKey(m.k) /\ ValidValue(m.v)
              [] OTHER -> TRUE
Mutate(M, m) ==
  CASE m.op = "insert" -> IF m.k \in DOMAIN M THEN M ELSE Put(M, m.k, TagOf(m))
    [] m.op = "update" -> IF m.k \in DOMAIN M THEN Put(M, m.k, TagOf(m)) ELSE M
    [] m.op = "upsert" -> Put(M, m.k, TagOf(m))
    [] m.op = "delete" -> Del(M, m.k)
    [] OTHER -> M
RECURSIVE Apply(_, _)
Apply(M, ms) == IF ms = << >> THEN M ELSE Apply(Mutate(M, Head(ms)), Tail(ms))
AllOK(ms) == \A i \in 1..Len(ms) : MutOK(ms[i])

NoMap == [none |-> TRUE, m |-> Empty]
AMap(M) == [none |-> FALSE, m |-> M]
MapOf(c) == ctx[c].m
New(c, d, ms) == /\ AllOK(ms) /\ d \notin DOMAIN ctx
                 /\ ctx' = Put(ctx, d, AMap(Apply(MapOf(c), ms)))
NewFails(ms) == ~AllOK(ms) /\ UNCHANGED ctx

(* ------------------------------------------------------------ codec *)
RECURSIVE VarintAt(_, _, _, _)
Pow128(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 128 ELSE IF n = 2 THEN 16384 ELSE IF n = 3 THEN 2097152 ELSE Big
Sat(x) == IF x > Big THEN Big ELSE x
(* value and next position of the varint at position i, or pos 0 *)
VarintAt(b, i, n, acc) ==
  IF i > Len(b) \/ n = MaxVarint THEN [val |-> 0, pos |-> 0]
  ELSE LET d == b[i] % 128
           c == IF d = 0 THEN 0 ELSE IF n > 3 THEN Big ELSE IF n = 3 /\ d > 40 THEN Big ELSE d * Pow128(n)
           a == Sat(acc + c) IN
       IF b[i] < 128 THEN [val |-> a, pos |-> i + 1] ELSE VarintAt(b, i + 1, n + 1, a)
(* the length-prefixed string at position i, or pos 0 *)
StringAt(b, i) ==
  LET n == VarintAt(b, i, 0, 0) IN
  IF n.pos = 0 \/ n.val > Len(b) - n.pos + 1 THEN [s |-> << >>, pos |-> 0]
  ELSE [s |-> SubSeq(b, n.pos, n.pos + n.val - 1), pos |-> n.pos + n.val]
(* one field: type 0, key, value; pos 0 if malformed *)
FieldAt(b, i) ==
  LET Bad == [k |-> << >>, v |-> << >>, pos |-> 0] IN
  IF b[i] # 0 THEN Bad
  ELSE LET k == StringAt(b, i + 1) IN
       IF k.pos = 0 THEN Bad
       ELSE LET v == StringAt(b, k.pos) IN
            IF v.pos = 0 \/ ~ValidKey(k.s) \/ ~ValidValue(v.s) THEN Bad
            ELSE [k |-> k.s, v |-> v.s, pos |-> v.pos]
RECURSIVE Fields(_, _, _)
Fields(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, fs |-> acc]
  ELSE LET f == FieldAt(b, i) IN
       IF f.pos = 0 THEN [ok |-> FALSE, fs |-> acc] ELSE Fields(b, f.pos, Append(acc, [k |-> f.k, v |-> f.v]))
Parse(b) == IF b = << >> THEN [ok |-> TRUE, fs |-> << >>]
            ELSE IF b[1] # 0 THEN [ok |-> FALSE, fs |-> << >>]
            ELSE Fields(b, 2, << >>)
RECURSIVE FoldFields(_)
FoldFields(fs) == IF fs = << >> THEN Empty
                  ELSE Put(FoldFields(SubSeq(fs, 1, Len(fs) - 1)), fs[Len(fs)].k, [v |-> fs[Len(fs)].v, ttl |-> "unlimited"])
DecodeMap(b) == FoldFields(Parse(b).fs)

Propagated(M) == {k \in DOMAIN M : M[k].ttl = "unlimited"}
(* b is an encoding of M: exactly the propagating tags, each once *)
EncodingOf(b, M) == LET p == Parse(b) IN
  /\ p.ok /\ Len(p.fs) = Cardinality(Propagated(M))
  /\ {p.fs[i].k : i \in 1..Len(p.fs)} = Propagated(M)
  /\ \A i \in 1..Len(p.fs) : p.fs[i].v = M[p.fs[i].k].v
(* the canonical encoder, for the model's own round trip *)
EncStr(s) == <<Len(s)>> \o s
RECURSIVE EncAll(_, _)
EncAll(M, ks) == IF ks = {} THEN << >> ELSE LET k == CHOOSE x \in ks : TRUE IN <<0>> \o EncStr(k) \o EncStr(M[k].v) \o EncAll(M, ks \ {k})
Encode(M) == <<0>> \o EncAll(M, Propagated(M))

(* ------------------------------------------------------------ properties *)
ValidMap(M) == \A k \in DOMAIN M : ValidKey(k) /\ ValidValue(M[k].v)
TagInv == \A c \in DOMAIN ctx : /\ ValidMap(MapOf(c))
                                /\ EncodingOf(Encode(MapOf(c)), MapOf(c))
                                /\ DecodeMap(Encode(MapOf(c))) = [k \in Propagated(MapOf(c)) |-> MapOf(c)[k]]
ParentsStay == [][\A c \in DOMAIN ctx : ctx'[c] = ctx[c]]_ctx
=============================================================================
