--------------------------- MODULE TraceState_MC ----------------------------
(* All behaviours of a few calls of New over small key and value sets; also the  *)
(* grammar of keys against an independent definition, with small length limits.  *)
EXTENDS TraceState
CONSTANTS KeySet, ValSet, BadKeys, MaxObj, MaxGiven, Alphabet, MaxLen
VARIABLE err
K(k) == k \notin BadKeys
V(v) == TRUE
MCPairs == 3
SmallKey == 4
SmallTenant == 3
SmallSystem == 2
Given == UNION {[1..n -> (KeySet \cup BadKeys) \X ValSet] : n \in 0..MaxGiven}
MCInit == SInit /\ err = FALSE
MCNext == \E p \in {0} \cup DOMAIN obj, es \in Given :
            /\ Cardinality(DOMAIN obj) < MaxObj
            /\ err' = NewErr(Parent(p), es, K, V)
            /\ \E h \in {0, Cardinality(DOMAIN obj) + 1} : NewTS(h, p, es, K, V)
MCSpec == MCInit /\ [][MCNext]_<<obj, err>>
Lists == \A h \in DOMAIN obj : NoDup(obj[h]) /\ Len(obj[h]) <= MaxPairs /\ \A i \in 1..Len(obj[h]) : K(obj[h][i][1])
Immutable == [][\A h \in DOMAIN obj : h \in DOMAIN obj' /\ obj'[h] = obj[h]]_<<obj, err>>
(* a key is a letter and up to SmallKey - 1 more, or tenant @ system *)
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Word(q, m) == q # << >> /\ Len(q) <= m /\ q[1] = 97 /\ \A i \in 1..Len(q) : q[i] \in {97, 45}
KeyRef(q) == Word(q, SmallKey) \/ \E i \in 1..Len(q) : q[i] = 64 /\ Word(SubSeq(q, 1, i - 1), SmallTenant) /\ Word(SubSeq(q, i + 1, Len(q)), SmallSystem)
Grammar == (obj = << >> /\ ~err) => \A q \in Strs : KeyOK(q) <=> KeyRef(q)
=============================================================================
