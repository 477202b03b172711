--------------------------- MODULE TraceZ_Trace -----------------------------
(* C07. The TraceZ pages read the span store of SpanStore.tla: a request lists *)
(* one bucket, the summary counts every bucket, and every link of the summary  *)
(* leads to a list of exactly the spans it counts.                             *)
EXTENDS SpanStore_Trace

(* the spans listed for a name, type (0 running, 1 latency, 2 error) and subtype *)
PageOf(S, ty, sub) ==
  CASE ty = 0 -> S.active
    [] ty = 1 /\ sub >= 0 /\ sub < NB -> {r.s : r \in Stored(S.lat[sub+1])}
    [] ty = 2 -> ByError(S, sub)
    [] OTHER -> {}
PageSpans(n, ty, sub) == IF n \in DOMAIN st THEN PageOf(st[n], ty, sub) ELSE {}
CountOf(n, ty, sub) == Cardinality(PageSpans(n, ty, sub))

LinPage(t) == /\ P(t).stage = 0 /\ P(t).op = "page"
              /\ Done(t, PageSpans(P(t).a.n, P(t).a.ty, P(t).a.sub)) /\ UNCHANGED <<on, now, st, sp>>
(* the summary is only taken while no call is running *)
InvSum == IsOp("inv", "zsum") /\ pend = << >> /\ UNCHANGED rvars /\ Step
RowOK(x) == /\ x.n \in DOMAIN st
            /\ x.active = CountOf(x.n, 0, 0)
            /\ Len(x.lat) = NB /\ \A i \in 1..NB : x.lat[i] = CountOf(x.n, 1, i - 1)
            /\ x.errors = CountOf(x.n, 2, 0)
RetSum == /\ IsOp("ret", "zsum")
          /\ \A i \in 1..Len(Ev.r) : RowOK(Ev.r[i])
          /\ \A i, j \in 1..Len(Ev.r) : i # j => Ev.r[i].n # Ev.r[j].n
          /\ \A n \in DOMAIN st : \E i \in 1..Len(Ev.r) : Ev.r[i].n = n
          /\ (Ev.r # << >> => Ev.hdr = <<0>> \o Bounds)
          /\ UNCHANGED rvars /\ Step
Follow == /\ IsOp("call", "follow")
          /\ Same(Ev.r, PageSpans(Ev.n, Ev.ty, Ev.sub))
          /\ Ev.cnt = Len(Ev.r) /\ Ev.num = Len(Ev.r)
          /\ UNCHANGED rvars /\ Step
InvZ == Is("inv") /\ Ev.op # "zsum" /\ InvAny
RetPage == IsOp("ret", "page") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].stage = 2 /\ Same(Ev.r, pend[Ev.th].seen)
           /\ pend' = Del(pend, Ev.th) /\ UNCHANGED <<on, now, st, sp>> /\ Step
ZNext ==
  \/ IsOp("call", "tick") /\ Tick(Ev.d) /\ Step
  \/ InvZ \/ InvSum \/ RetSum \/ Follow \/ RetPage
  \/ NextIs("ret") /\ Ev.op # "zsum" /\ (\E t \in DOMAIN pend : Lin(t) \/ LinPage(t)) /\ Silent
  \/ Is("ret") /\ Ev.op \notin {"zsum", "page"} /\ RetAny
ZSpec == TInit /\ [][ZNext]_<<rvars, tid, l>>
=============================================================================
