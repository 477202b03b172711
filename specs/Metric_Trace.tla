--------------------------- MODULE Metric_Trace -----------------------------
(* Binds Metric.tla to recorded executions of the metric registry              *)
EXTENDS Metric, TraceKit
VARIABLES pend, eid   \* calls in progress; identity of entries: number -> <<metric, label values>>
tvars == <<mvars, pend, eid>>
TInit == TraceInit0 /\ MInit /\ pend = << >> /\ eid = << >>
At == Ev.t = now
Inv == /\ Is("inv") /\ At /\ Ev.th \notin DOMAIN pend
       /\ pend' = Put(pend, Ev.th, [a |-> Ev, s |-> 0, r |-> FALSE])
       /\ rd' = IF Ev.op = "read" THEN Put(rd, Ev.th, NewRead) ELSE rd
       /\ UNCHANGED <<now, reg, met, ent, fnv, eid>> /\ Step
Lin(t) ==
  LET a == pend[t].a Err(e) == pend' = [pend EXCEPT ![t].s = 1, ![t].r = e] IN
  /\ pend[t].s = 0 /\ UNCHANGED eid
  /\ CASE a.op = "madd" -> AddMetric(a.g, a.d) /\ Err(AddErr(a.d.name, a.d.ty))
       [] a.op = "get" -> GetEntry(a.g, a.lv) /\ Err(~Arity(a.g, a.lv))
       [] a.op = "upsert" -> Upsert(a.g, a.lv, a.f) /\ Err(~Arity(a.g, a.lv) \/ a.f = 0)
       [] a.op = "set" -> SetVal(eid[a.x][1], eid[a.x][2], a.v) /\ Err(FALSE)
       [] a.op = "add" -> AddVal(eid[a.x][1], eid[a.x][2], a.v) /\ Err(FALSE)
       [] a.op = "inc" -> IncVal(eid[a.x][1], eid[a.x][2], a.v) /\ Err(FALSE)
       [] a.op = "setfn" -> SetFn(a.f, a.v) /\ Err(FALSE)
       [] a.op = "read" -> UNCHANGED mvars /\ Err(FALSE)
GetOK(a, e) == LET k == <<a.g, Full(a.g, a.lv)>> IN
  IF \E x \in DOMAIN eid : eid[x] = k THEN e.x \in DOMAIN eid /\ eid[e.x] = k /\ UNCHANGED eid
  ELSE e.x \notin DOMAIN eid /\ eid' = Put(eid, e.x, k)
Ret == /\ Is("ret") /\ At /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].s = 1
       /\ LET p == pend[Ev.th] IN
          /\ Ev.op \in {"madd", "get", "upsert"} => Ev.err = p.r
          /\ IF Ev.op = "get" /\ ~Ev.err THEN GetOK(p.a, Ev) ELSE UNCHANGED eid
          /\ Ev.op = "read" => ReadOK(rd[Ev.th], Ev.r)
       /\ pend' = Del(pend, Ev.th)
       /\ rd' = IF Ev.op = "read" THEN Del(rd, Ev.th) ELSE rd
       /\ UNCHANGED <<now, reg, met, ent, fnv>> /\ Step
Lazy == More /\ Ev.e = "ret"
Internal == Lazy /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent
Advance == More /\ Ev.t > now /\ pend = << >> /\ now' = Ev.t /\ UNCHANGED <<reg, met, ent, fnv, rd, pend, eid>> /\ Silent
Stable == IsOp("call", "stable") /\ At /\ Ev.bad = 0 /\ UNCHANGED tvars /\ Step
TNext == Inv \/ Ret \/ Internal \/ Advance \/ Stable
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
