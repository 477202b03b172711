----------------------------- MODULE TraceState ------------------------------
(* trace/tracestate: immutable lists of entries, and the W3C grammar of keys and *)
(* values. Strings are sequences of bytes.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
VARIABLES obj  \* tracestate objects: handle -> sequence of <<key, value>>
MaxKey == 256
MaxVal == 256
MaxTenant == 241
MaxSystem == 14
MaxPairs == 32
Lower(c) == c \in 97..122
KeyChar(c) == Lower(c) \/ c \in 48..57 \/ c \in {95, 45, 42, 47}
KeyPart(q, max) == Len(q) \in 1..max /\ Lower(q[1]) /\ \A i \in 1..Len(q) : KeyChar(q[i])
AtSign == 64
KeyOK(q) == LET at == {i \in 1..Len(q) : q[i] = AtSign} IN
  IF at = {} THEN KeyPart(q, MaxKey)
  ELSE /\ Cardinality(at) = 1
       /\ LET i == CHOOSE i \in at : TRUE IN KeyPart(SubSeq(q, 1, i - 1), MaxTenant) /\ KeyPart(SubSeq(q, i + 1, Len(q)), MaxSystem)
ValChar(c) == c \in 32..126 /\ c # 44 /\ c # 61
ValOK(q) == Len(q) \in 1..MaxVal /\ q[Len(q)] # 32 /\ \A i \in 1..Len(q) : ValChar(q[i])

(* New: es are the given entries, ps the parent's; K, V decide what is well formed *)
Keys(es) == {es[i][1] : i \in 1..Len(es)}
NoDup(es) == Cardinality(Keys(es)) = Len(es)
Joined(ps, es) == es \o SelectSeq(ps, LAMBDA x : x[1] \notin Keys(es))
NewErr(ps, es, K(_), V(_)) == \/ \E i \in 1..Len(es) : ~K(es[i][1]) \/ ~V(es[i][2])
                              \/ ~NoDup(es)
                              \/ Len(Joined(ps, es)) > MaxPairs
SInit == obj = << >>
Parent(p) == IF p = 0 THEN << >> ELSE obj[p]
(* handle 0 is nil *)
NewTS(h, p, es, K(_), V(_)) ==
  IF h = 0 THEN (NewErr(Parent(p), es, K, V) \/ Joined(Parent(p), es) = << >>) /\ UNCHANGED obj
  ELSE /\ ~NewErr(Parent(p), es, K, V) /\ h \notin DOMAIN obj
       /\ obj' = [x \in DOMAIN obj \cup {h} |-> IF x = h THEN Joined(Parent(p), es) ELSE obj[x]]
=============================================================================
