-------------------------- MODULE SpanStore_Trace ---------------------------
EXTENDS SpanStore, TraceKit
TBounds == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 60000000>>
TInit == TraceInit0 /\ RInit
Rng(q) == {q[i] : i \in 1..Len(q)}
Same(q, S) == Rng(q) = S /\ Len(q) = Cardinality(S)

InvAny == /\ Is("inv") /\ Ev.th \notin DOMAIN pend
          /\ pend' = Put(pend, Ev.th, [op |-> Ev.op, s |-> (IF "s" \in DOMAIN Ev THEN Ev.s ELSE 0), stage |-> 0, rec |-> 0, a |-> Ev, seen |-> << >>])
          /\ UNCHANGED <<on, now, st, sp>> /\ Step

P(t) == pend[t]
Done(t, v) == pend' = [pend EXCEPT ![t].stage = 2, ![t].seen = v]
Fin(t) == [pend EXCEPT ![t].stage = 2]
LinOne(t) ==
  /\ P(t).stage = 0
  /\ \/ /\ P(t).op = "start" /\ P(t).s \notin DOMAIN sp
        /\ sp' = Put(sp, P(t).s, [name |-> P(t).a.n, start |-> now, code |-> 0, tracked |-> on, ended |-> FALSE])
        /\ st' = IF on THEN Put(st, P(t).a.n, [StoreOf(P(t).a.n) EXCEPT !.active = @ \cup {P(t).s}]) ELSE st
        /\ pend' = Fin(t) /\ UNCHANGED <<on, now>>
     \/ /\ P(t).op = "setcode" /\ sp' = [sp EXCEPT ![P(t).s].code = P(t).a.c]
        /\ pend' = Fin(t) /\ UNCHANGED <<on, now, st>>
     \/ /\ P(t).op = "conf"
        /\ LET n == P(t).a.n lc == P(t).a.lc ec == P(t).a.ec IN
           st' = IF n \in DOMAIN st
             THEN [st EXCEPT ![n] = [@ EXCEPT !.lat = [i \in 1..NB |-> Resize(@[i], Clamp(lc))],
                                            !.err = [c \in DOMAIN @ |-> Resize(@[c], Clamp(ec))], !.ecap = Clamp(ec)]]
             ELSE Put(st, n, NewStore(Clamp(lc), Clamp(ec)))
        /\ pend' = Fin(t) /\ UNCHANGED <<on, now, sp>>
     \/ P(t).op = "qactive" /\ Done(t, Active(P(t).a.n)) /\ UNCHANGED <<on, now, st, sp>>
     \/ P(t).op = "qerr" /\ Done(t, ByError(StoreOf(P(t).a.n), P(t).a.c)) /\ UNCHANGED <<on, now, st, sp>>
     \/ P(t).op = "qlat" /\ Done(t, ByLatency(StoreOf(P(t).a.n), P(t).a.lo, P(t).a.hi)) /\ UNCHANGED <<on, now, st, sp>>
     \/ EndSnap(t)
(* the summary visits the stores one after the other *)
SumOne(t) == /\ P(t).op = "sum"
             /\ \E n \in Rng(P(t).a.names) \ DOMAIN P(t).seen :
                  /\ pend' = [pend EXCEPT ![t].seen = Put(@, n, [present |-> n \in DOMAIN st, S |-> StoreOf(n)]), ![t].stage = 2]
                  /\ UNCHANGED <<on, now, st, sp>>
Lin(t) == LinOne(t) \/ EndFile(t) \/ SumOne(t)

SumOK(e, v) ==  \* e: one name of the summary, v: the store as visited
  \* (a store may be seen after its creation and before its first span: present and empty)
  /\ v.present /\ ~e.present => v.S.active = {} /\ AllErr(v.S) = {} /\ AllLat(v.S) = {}
  /\ e.present => /\ e.active = Cardinality(v.S.active)
                  /\ e.lat = [i \in 1..NB |-> Len(v.S.lat[i].q)]
                  /\ \A i \in 1..Len(e.err) : LET c == e.err[i][1] IN
                        e.err[i][2] = (IF c \in DOMAIN v.S.err THEN Len(v.S.err[c].q) ELSE 0)
                  /\ \A c \in DOMAIN v.S.err : v.S.err[c].q # << >> => \E i \in 1..Len(e.err) : e.err[i][1] = c
                  /\ \A i, j \in 1..Len(e.err) : i # j => e.err[i][1] # e.err[j][1]
RetOK(e, p) ==
  CASE e.op \in {"qactive", "qerr", "qlat"} -> Same(e.r, p.seen)
    [] e.op = "sum" -> \A i \in 1..Len(e.r) : e.r[i].n \in DOMAIN p.seen /\ SumOK(e.r[i], p.seen[e.r[i].n])
    [] OTHER -> TRUE
RetAny == /\ Is("ret") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].stage = 2 /\ RetOK(Ev, pend[Ev.th])
          /\ pend' = Del(pend, Ev.th) /\ UNCHANGED <<on, now, st, sp>> /\ Step
TNext ==
  \/ IsOp("call", "tick") /\ Tick(Ev.d) /\ Step
  \/ IsOp("call", "enable") /\ Enable(Ev.b) /\ Step
  \/ IsOp("call", "bounds") /\ Ev.b = Bounds /\ Step /\ UNCHANGED rvars
  \/ InvAny
  \/ NextIs("ret") /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent
  \/ RetAny
TSpec == TInit /\ [][TNext]_<<rvars, tid, l>>
=============================================================================
