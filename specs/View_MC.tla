------------------------------ MODULE View_MC -------------------------------
(* Small instances of View.tla: meters, commands of one client thread per      *)
(* meter, measurements, exporters, the clock. Ghosts: per view, the measurements *)
(* handled since its registration; per reporting period, what exporters got.    *)
EXTENDS View
CONSTANTS Meters, Exps, MaxNow, MaxRec, MaxCmd, MaxSess, ViewSet
VARIABLES nrec, ncmd, nsess, g, got
mcvars == <<vvars, nrec, ncmd, nsess, g, got>>
D(n, m, agg, b, keys) == [n |-> n, desc |-> "", m |-> m, mn |-> "m", md |-> "", mt |-> "i", mu |-> "1", agg |-> agg, b |-> b, keys |-> keys, bad |-> FALSE]
Views1 == {<<D("v1", 1, "count", <<>>, <<1>>)>>, <<D("v1", 1, "dist", <<0, 4>>, <<2, 1>>)>>, <<D("v2", 2, "last", <<>>, <<>>), D("v1", 1, "count", <<>>, <<2>>)>>}
Views2 == Views1 \cup {<<D("v2", 2, "last", <<>>, <<>>), D("", 0, "count", <<>>, <<>>)>>, <<D("", 1, "sum", <<>>, <<2>>)>>}
Recs == {[tags |-> (1 :> "a"), ms |-> <<<<1, 2>>>>], [tags |-> (1 :> "" @@ 2 :> "b"), ms |-> <<<<1, 4>>, <<2, 6>>>>]}
Busy(m) == m \in DOMAIN out \/ mt[m].w.th = m \/ \E i \in 1..Len(mt[m].q) : mt[m].q[i].k = "cmd"
Same0 == UNCHANGED <<nrec, ncmd, nsess, g, got>>
G(m) == IF m \in DOMAIN g THEN g[m] ELSE << >>
Cmd(m) == /\ ncmd < MaxCmd /\ ~Busy(m)
          /\ \E c \in {[op |-> "register", views |-> v] : v \in ViewSet} \cup {[op |-> "unregister", ns |-> <<"v1", "v2">>], [op |-> "setperiod", d |-> 1]} :
               Enqueue(m, [k |-> "cmd", th |-> m, c |-> c])
          /\ ncmd' = ncmd + 1 /\ UNCHANGED <<now, out, nrec, nsess, g, got>>
Rec(m) == /\ nrec < MaxRec /\ \E r \in Recs : Enqueue(m, [k |-> "rec", tags |-> r.tags, ms |-> r.ms, a |-> 0, t |-> now])
          /\ nrec' = nrec + 1 /\ UNCHANGED <<now, out, ncmd, nsess, g, got>>
DoHandleRec(m) == /\ HandleRecord(m)
                  /\ g' = Put(g, m, [n \in DOMAIN mt[m].views |-> Append(G(m)[n], Head(mt[m].q))])
                  /\ UNCHANGED <<nrec, ncmd, nsess, got>>
DoHandleCmd(m) == /\ HandleCmd(m)
                  /\ g' = Put(g, m, [n \in DOMAIN mt'[m].views |-> IF n \in DOMAIN G(m) THEN G(m)[n] ELSE << >>])
                  /\ UNCHANGED <<nrec, ncmd, nsess, got>>
DoDrop(m) == UnregDrop(m) /\ g' = Put(g, m, Del(G(m), mt[m].w.cur)) /\ UNCHANGED <<nrec, ncmd, nsess, got>>
DoTick(m) == TickM(m) /\ got' = Put(got, m, [left |-> {n \in DOMAIN mt[m].views : mt[m].views[n].rows # << >>}, xs |-> mt[m].exps, seen |-> << >>, chg |-> FALSE]) /\ UNCHANGED <<nrec, ncmd, nsess, g>>
DoDeliver(m) == \E x \in mt[m].w.pend : Deliver(m, x, mt[m].w.cur)
                 /\ got' = (IF m \in DOMAIN got /\ mt[m].w.k = "rep" THEN [got EXCEPT ![m].seen = Append(@, <<x, mt[m].w.cur>>)] ELSE got)
                 /\ UNCHANGED <<nrec, ncmd, nsess, g>>
Sess(m) == /\ nsess < MaxSess /\ nsess' = nsess + 1
           /\ \/ StopReq(m) /\ ~mt[m].stopReq
              \/ StartM(m) /\ mt[m].st = "new"
              \/ \E x \in Exps : AddExp(m, x) /\ x \notin mt[m].exps
              \/ \E x \in Exps : DelExp(m, x) /\ x \in mt[m].exps
           /\ got' = [k \in DOMAIN got |-> [got[k] EXCEPT !.chg = TRUE]] /\ UNCHANGED <<nrec, ncmd, g>>
Collect(m) == m \in DOMAIN out /\ out' = Del(out, m) /\ UNCHANGED <<now, mt>> /\ Same0
Dead(m) == Die(m) /\ Same0
Work(m) == DoHandleRec(m) \/ DoHandleCmd(m) \/ DoDrop(m) \/ DoTick(m) \/ DoDeliver(m) \/ ((UnregPick(m) \/ UnregDone(m) \/ RepPick(m) \/ RepSkip(m) \/ RepNext(m)) /\ Same0)
MCInit == /\ now = 0 /\ out = << >> /\ nrec = 0 /\ ncmd = 0 /\ nsess = 0 /\ g = << >> /\ got = << >>
          /\ mt = [m \in Meters |-> [NewM EXCEPT !.st = IF m = 1 THEN "run" ELSE "new", !.exps = IF m = 1 THEN Exps ELSE {}]]
MCNext == \/ \E m \in Meters : Cmd(m) \/ Rec(m) \/ Sess(m) \/ Work(m) \/ Dead(m) \/ Collect(m)
          \/ now < MaxNow /\ AdvanceTo(now + 1) /\ Same0
MCSpec == MCInit /\ [][MCNext]_mcvars
MCFair == MCSpec /\ \A m \in Meters : WF_mcvars(Work(m)) /\ WF_mcvars(Dead(m)) /\ WF_mcvars(Collect(m))

(* every handled measurement is in exactly one row of each view of its measure registered then *)
Matching(d, e) == SelectSeq(e.ms, LAMBDA x : x[1] = d.m)
NSamples(rows) == LET f[S \in SUBSET DOMAIN rows] == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(rows[k]) + f[S \ {k}] IN f[DOMAIN rows]
Conserved == \A m \in DOMAIN mt : \A n \in DOMAIN mt[m].views :
  LET v == mt[m].views[n] h == G(m)[n] IN
  /\ NSamples(v.rows) = SumSeq([i \in 1..Len(h) |-> Len(Matching(v.def, h[i]))])
  /\ \A k \in DOMAIN v.rows :
       LET mine == SelectSeq(h, LAMBDA e : RowKey(v.def.keys, e.tags) = k)
           want == FoldLeft(LAMBDA a, e : a \o [i \in 1..Len(Matching(v.def, e)) |-> Matching(v.def, e)[i][2]], << >>, mine)
       IN Vals(v.rows[k]) = want /\ want # << >>
  /\ \A i \in 1..Len(v.def.keys) - 1 : v.def.keys[i] < v.def.keys[i+1]
DistOK == \A m \in DOMAIN mt : \A n \in DOMAIN mt[m].views : \A k \in DOMAIN mt[m].views[n].rows :
  LET d == mt[m].views[n].def s == mt[m].views[n].rows[k] IN
  /\ SumSeq(BCounts(d.b, s)) = Len(s) /\ SqDev(s) >= 0
  /\ MinSeq(Vals(s)) * Len(s) <= SumSeq(Vals(s)) /\ SumSeq(Vals(s)) <= MaxSeq(Vals(s)) * Len(s)
NamesOK == \A m \in DOMAIN mt : \A n \in DOMAIN mt[m].views : mt[m].views[n].def.n = n /\ Valid(mt[m].views[n].def)
           /\ (mt[m].w.cur # "" => mt[m].w.cur \in DOMAIN mt[m].views)
(* when a report is over every exporter got every view with data once, and only registered ones *)
Reported == \A m \in DOMAIN got : (mt[m].w.k # "rep" /\ ~got[m].chg) =>
  \A n \in got[m].left : \A x \in got[m].xs : \E i \in 1..Len(got[m].seen) : got[m].seen[i] = <<x, n>>
AtMostOnce == \A m \in DOMAIN got : \A i, j \in 1..Len(got[m].seen) : i # j => got[m].seen[i] # got[m].seen[j]
Inv == Conserved /\ DistOK /\ NamesOK /\ Reported /\ AtMostOnce
(* meters do not touch each other; a dead meter stays as it was; a view is only replaced after it was removed *)
Isolated == [][\A m, k \in DOMAIN mt : m # k => mt'[m] = mt[m] \/ mt'[k] = mt[k]]_mcvars
Final == [][\A m \in DOMAIN mt : mt[m].st = "dead" => mt'[m].st = "dead" /\ mt'[m].views = mt[m].views]_mcvars
Kept == [][\A m \in DOMAIN mt : \A n \in DOMAIN mt[m].views \cap DOMAIN mt'[m].views :
             mt'[m].views[n].def = mt[m].views[n].def /\ mt'[m].views[n].start = mt[m].views[n].start]_mcvars
Answered == \A m \in Meters : (mt[m].st # "new" /\ Busy(m) /\ ~mt[m].stopReq) ~> (~Busy(m) \/ mt[m].stopReq)
Stops == \A m \in Meters : mt[m].stopReq ~> mt[m].st = "dead"
=============================================================================
