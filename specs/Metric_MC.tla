----------------------------- MODULE Metric_MC ------------------------------
(* Metric.tla in a small instance in which updates are made by the steps of    *)
(* the lock-free algorithms (read, then compare-and-swap; look up, then insert  *)
(* if absent), so that no update is lost and entries are never duplicated.      *)
EXTENDS Metric
CONSTANTS Threads, Names, MaxOps, Labels
VARIABLES pc, nops, log
mcv == <<mvars, pc, nops, log>>
Idle == [k |-> "idle"]
Lvs == {<<a>> : a \in Labels} \cup {<< >>}
More0 == nops < MaxOps /\ nops' = nops + 1
MAdd == \E n \in Names, ty \in {1, 5} : More0 /\ AddMetric(Cardinality(DOMAIN met) + 1, [name |-> n, ty |-> ty, keys |-> <<1, 2>>, const |-> <<9>>, desc |-> "", unit |-> ""])
        /\ UNCHANGED <<pc, log>>
Entries == UNION {{<<g, k>> : k \in DOMAIN ent[g]} : g \in DOMAIN met}
GetB(t) == pc[t] = Idle /\ More0 /\ \E g \in DOMAIN met, lv \in Lvs :
            pc' = [pc EXCEPT ![t] = [k |-> "get", g |-> g, lv |-> lv, found |-> Arity(g, lv) /\ Full(g, lv) \in DOMAIN ent[g]]]
            /\ UNCHANGED <<mvars, log>>
GetE(t) == pc[t].k = "get" /\ (IF pc[t].found THEN UNCHANGED mvars ELSE GetEntry(pc[t].g, pc[t].lv)) /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<nops, log>>
AddB(t) == pc[t] = Idle /\ More0 /\ \E e \in Entries, v \in {-1, 2} :
            pc' = [pc EXCEPT ![t] = [k |-> "add", e |-> e, v |-> v, old |-> ent[e[1]][e[2]].v]] /\ UNCHANGED <<mvars, log>>
AddC(t) == /\ pc[t].k = "add"
           /\ LET e == pc[t].e cur == ent[e[1]][e[2]].v cum == Cumul(met[e[1]].ty) IN
              IF cum /\ pc[t].v <= 0 THEN pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<mvars, log>>
              ELSE IF cur = pc[t].old THEN /\ Write(e[1], e[2], pc[t].old + pc[t].v) /\ pc' = [pc EXCEPT ![t] = Idle]
                                           /\ log' = Put(log, e, (IF e \in DOMAIN log THEN log[e] ELSE 0) + pc[t].v)
              ELSE pc' = [pc EXCEPT ![t].old = cur] /\ UNCHANGED <<mvars, log>>
           /\ UNCHANGED nops
SetB(t) == pc[t] = Idle /\ More0 /\ \E e \in Entries : met[e[1]].ty = 1 /\ SetVal(e[1], e[2], 1) /\ log' = Put(log, e, 1) /\ UNCHANGED pc
RdB(t) == pc[t] = Idle /\ More0 /\ rd' = Put(rd, t, NewRead) /\ pc' = [pc EXCEPT ![t] = [k |-> "read"]] /\ UNCHANGED <<now, reg, met, ent, fnv, log>>
RdE(t) == pc[t].k = "read" /\ rd' = Del(rd, t) /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<now, reg, met, ent, fnv, log, nops>>
MCInit == MInit /\ pc = [t \in Threads |-> Idle] /\ nops = 0 /\ log = << >>
MCNext == MAdd \/ \E t \in Threads : GetB(t) \/ GetE(t) \/ AddB(t) \/ AddC(t) \/ SetB(t) \/ RdB(t) \/ RdE(t)
MCSpec == MCInit /\ [][MCNext]_mcv
NoLost == \A e \in Entries : ent[e[1]][e[2]].v = (IF e \in DOMAIN log THEN log[e] ELSE 0)
Shape == /\ \A n \in DOMAIN reg : met[reg[n]].name = n
         /\ \A g \in DOMAIN met : \A k \in DOMAIN ent[g] : Len(k) = Len(met[g].keys) /\ k[1] = met[g].const[1]
         /\ \A t \in DOMAIN rd : \A n \in DOMAIN reg : reg[n] \in rd[t].ms[n] /\ \A k \in DOMAIN ent[reg[n]] : Vs(ent[reg[n]][k]) \subseteq rd[t].vs[reg[n]][k]
Grow == [][/\ \A n \in DOMAIN reg : n \in DOMAIN reg' /\ met'[reg'[n]].ty = met[reg[n]].ty
           /\ \A g \in DOMAIN met : /\ DOMAIN ent[g] \subseteq DOMAIN ent'[g]
                                    /\ Cumul(met[g].ty) => \A k \in DOMAIN ent[g] : ent'[g][k].v >= ent[g][k].v]_mcv
=============================================================================
