---------------------------- MODULE ViewQueue_MC ----------------------------
EXTENDS ViewQueue
CONSTANTS Threads, Cap, MaxOps
VARIABLES pc, n      \* per thread: what it is doing; calls begun
mcvars == <<qvars, pc, n>>
Idle == [op |-> "idle"]
MCInit == QInit /\ pc = [t \in Threads |-> Idle] /\ n = 0
Set(t, x) == pc' = [pc EXCEPT ![t] = x]
MCNext ==
  \/ \E t \in Threads :
     \/ /\ pc[t] = Idle /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E r \in Rows : BeginRec(r, 1) /\ Set(t, [op |-> "rec", r |-> r])
           \/ BeginAsk(n + 1) /\ Set(t, [op |-> "ask", h |-> n + 1])
           \/ StopReq /\ Set(t, [op |-> "stop"])
     \/ /\ pc[t].op = "rec" /\ UNCHANGED n
        /\ (SendRec(pc[t].r, Cap) \/ (st # "run" /\ UNCHANGED qvars)) /\ Set(t, [op |-> "sent", r |-> pc[t].r])
     \/ pc[t].op = "sent" /\ RetRec(pc[t].r, 1) /\ Set(t, Idle) /\ UNCHANGED n
     \/ pc[t].op = "ask" /\ UNCHANGED n
        /\ (SendAsk(pc[t].h, Cap) \/ (st # "run" /\ UNCHANGED qvars)) /\ Set(t, [op |-> "asked", h |-> pc[t].h])
     \/ pc[t].op = "asked" /\ (pc[t].h \in DOMAIN ans \/ st = "dead") /\ Set(t, Idle) /\ UNCHANGED <<qvars, n>>
     \/ pc[t].op = "stop" /\ st = "dead" /\ Set(t, Idle) /\ UNCHANGED <<qvars, n>>
  \/ (Work \/ ExportBegin \/ ExportEnd \/ Die) /\ UNCHANGED <<pc, n>>
MCSpec == MCInit /\ [][MCNext]_mcvars
MCFair == MCSpec /\ SF_mcvars(Work /\ UNCHANGED <<pc, n>>) /\ WF_mcvars(ExportEnd /\ UNCHANGED <<pc, n>>) /\ SF_mcvars(Die /\ UNCHANGED <<pc, n>>)
          /\ \A t \in Threads : SF_mcvars(MCNext /\ pc'[t] # pc[t] /\ n' = n)
Bounded == Len(q) <= Cap
(* nothing is lost before Stop: what returned is aggregated or queued, and no more than began *)
NothingLost == \A r \in Rows : done[r] <= app[r] + Queued(r) /\ app[r] + Queued(r) <= began[r]
Answers == \A h \in DOMAIN ans : Between(asks[h], began, ans[h])
Ordered == [][\A r \in Rows : app'[r] >= app[r]]_mcvars
(* every call comes back, whatever the load, with or without Stop *)
Return == \A t \in Threads : pc[t] # Idle ~> pc[t] = Idle
=============================================================================
