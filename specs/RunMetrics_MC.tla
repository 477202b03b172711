--------------------------- MODULE RunMetrics_MC ----------------------------
(* The implementation's steps: Enable and Disable hold a lock around deleting    *)
(* the old producer, adding the new one and remembering it; the manager has its   *)
(* own lock. The map of the manager refines the abstract registration.            *)
EXTENDS RunMetrics
CONSTANTS Threads, MaxOps, Others
VARIABLES mgr, last, mu, pc, nops, ids
mcv == <<xvars, mgr, last, mu, pc, nops, ids>>
Opts == {[mem |-> m, cpu |-> c, der |-> FALSE, pfx |-> ""] : m, c \in BOOLEAN}
Idle == [k |-> "idle"]
MCInit == XInit /\ mgr = {} /\ last = 0 /\ mu = 0 /\ pc = [t \in Threads |-> Idle] /\ nops = 0 /\ ids = << >>
Beg(t, p) == pc[t] = Idle /\ nops < MaxOps /\ nops' = nops + 1 /\ pc' = [pc EXCEPT ![t] = p] /\ UNCHANGED <<xvars, mgr, last, mu>>
EnB(t) == \E o \in Opts : Beg(t, [k |-> "e0", id |-> Len(ids) + 1, o |-> o]) /\ ids' = Append(ids, o)
DisB(t) == Beg(t, [k |-> "d0"]) /\ UNCHANGED ids
OthB(t) == pc[t] = Idle /\ nops < MaxOps /\ nops' = nops + 1 /\ (\E p \in Others : (AddOther(p) /\ mgr' = mgr \cup {-p}) \/ (DelOther(p) /\ mgr' = mgr \ {-p}))
           /\ UNCHANGED <<last, mu, pc, ids>>
Lock(t) == pc[t].k \in {"e0", "d0"} /\ mu = 0 /\ mu' = t /\ pc' = [pc EXCEPT ![t].k = IF pc[t].k = "e0" THEN "e1" ELSE "d1"]
           /\ UNCHANGED <<xvars, mgr, last, nops, ids>>
DelOld(t) == pc[t].k \in {"e1", "d1"} /\ mgr' = mgr \ {last} /\ pc' = [pc EXCEPT ![t].k = IF pc[t].k = "e1" THEN "e2" ELSE "d2"]
             /\ UNCHANGED <<xvars, last, mu, nops, ids>>
AddNew(t) == pc[t].k = "e2" /\ mgr' = mgr \cup {pc[t].id} /\ pc' = [pc EXCEPT ![t].k = "e3"] /\ UNCHANGED <<xvars, last, mu, nops, ids>>
EnE(t) == pc[t].k = "e3" /\ last' = pc[t].id /\ mu' = 0 /\ Enable(pc[t].o) /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<mgr, nops, ids>>
DisE(t) == pc[t].k = "d2" /\ last' = 0 /\ mu' = 0 /\ Disable /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<mgr, nops, ids>>
MCNext == \E t \in Threads : EnB(t) \/ DisB(t) \/ OthB(t) \/ Lock(t) \/ DelOld(t) \/ AddNew(t) \/ EnE(t) \/ DisE(t)
MCSpec == MCInit /\ [][MCNext]_mcv
Quiet == \A t \in Threads : pc[t].k \in {"idle", "e0", "d0"}
Runtime == {x \in mgr : x > 0}
OneProducer == /\ Cardinality(Runtime) <= 1
               /\ Quiet => /\ Cardinality(Runtime) = Registered
                           /\ here <=> cur.on
                           /\ cur.on => Runtime = {last} /\ ids[last] = cur.o
OthersKept == {x \in mgr : x < 0} = {-p : p \in others}
Names == \A o \in Opts : Cardinality(Wanted(o)) = Cardinality(Selected(o)) /\ Cardinality({x.n : x \in Wanted(o)}) = Cardinality(Selected(o))
=============================================================================
