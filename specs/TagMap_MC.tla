----------------------------- MODULE TagMap_MC ------------------------------
EXTENDS TagMap
CONSTANTS Bytes, MaxBytes, MaxCtx
MCKeys == {<<107>>, <<107, 50>>, << >>}
MCVals == {<< >>, <<118>>, <<118, 31>>}
MCMuts == [op : {"insert", "update", "upsert"}, k : MCKeys, v : MCVals, mds : {<< >>, <<"none">>, <<"none", "unlimited">>}]
          \cup [op : {"delete"}, k : MCKeys] \cup [op : {"fail"}]
Init == ctx = [c \in {1} |-> NoMap]
Next == \E c \in DOMAIN ctx, m1, m2 \in MCMuts :
          LET d == Cardinality(DOMAIN ctx) + 1 IN
          \/ d <= MaxCtx /\ (New(c, d, <<m1>>) \/ (m1.op # "delete" /\ m2.op = "delete" /\ New(c, d, <<m1, m2>>)))
          \/ NewFails(<<m1, m2>>)
Spec == Init /\ [][Next]_ctx
(* the decoder on every short byte string: total, only valid tags *)
Strings == UNION {[1..n -> Bytes] : n \in 0..MaxBytes}
ASSUME \A b \in Strings : LET p == Parse(b) IN
          /\ p.ok \in BOOLEAN
          /\ ValidMap(DecodeMap(b))
          /\ (p.ok => EncodingOf(Encode(DecodeMap(b)), DecodeMap(b)))
          /\ (p.ok /\ Len(b) > 0 => b[1] = 0)
=============================================================================
