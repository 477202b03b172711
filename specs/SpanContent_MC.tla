--------------------------- MODULE SpanContent_MC ---------------------------
EXTENDS SpanContent, Integers
CONSTANTS Threads, Budget
VARIABLES left, sets, adds   \* history: all attribute settings / annotations in linearization order
mv == <<cvars, left, sets, adds>>
Keys == {"a", "b", "c"}
Ops == {[op |-> "attrs", kvs |-> <<<<k, v>>>>] : k \in Keys, v \in {1, 2}}
   \cup {[op |-> "attrs", kvs |-> <<<<"a", 1>>, <<"b", 2>>, <<"c", 1>>>>]}
   \cup {[op |-> "annotate", v |-> x] : x \in {1, 2}}
   \cup {[op |-> "observe"], [op |-> "end"], [op |-> "child"]}
MCInit == /\ CInit /\ left = [t \in Threads |-> Budget] /\ sets = << >> /\ adds = << >>
MCNext ==
  \/ Start(1, New("n", 0, 2, 2, 1, 1)) /\ UNCHANGED <<left, sets, adds>>
  \/ \E t \in Threads, o \in Ops : left[t] > 0 /\ Inv(t, 1, o) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<sets, adds>>
  \/ \E t \in Threads : /\ Lin(t) /\ UNCHANGED left
                        /\ sets' = IF pend[t].o.op = "attrs" THEN sets \o pend[t].o.kvs ELSE sets
                        /\ adds' = IF pend[t].o.op = "annotate" THEN Append(adds, pend[t].o.v) ELSE adds
  \/ \E t \in Threads : Ret(t) /\ UNCHANGED <<left, sets, adds>>
MCSpec == MCInit /\ [][MCNext]_mv
(* independent characterisation: the kept attributes are the last-set distinct keys with their last values *)
LastSet(k) == IF \E i \in 1..Len(sets) : sets[i][1] = k THEN CHOOSE i \in 1..Len(sets) : sets[i][1] = k /\ \A j \in i+1..Len(sets) : sets[j][1] # k ELSE 0
Recent == {k \in Keys : LastSet(k) > 0 /\ Cardinality({m \in Keys : LastSet(m) > LastSet(k)}) < 2}
LruMeaning == 1 \in DOMAIN live => {live[1].A.q[i] : i \in 1..Len(live[1].A.q)} = {<<k, sets[LastSet(k)][2]>> : k \in Recent}
FifoMeaning == 1 \in DOMAIN live => /\ live[1].N.q = SubSeq(adds, (IF Len(adds) > 2 THEN Len(adds) - 1 ELSE 1), Len(adds))
                                    /\ live[1].N.drop = (IF Len(adds) > 2 THEN Len(adds) - 2 ELSE 0)
=============================================================================
