---------------------------- MODULE View_Trace ------------------------------
(* Binds View.tla to recorded executions of stats and stats/view (virtual time) *)
EXTENDS View, TraceKit
VARIABLES pend, fl   \* calls in progress by thread; per meter: start/stop calls seen
tvars == <<vvars, pend, fl>>
TInit == TraceInit0 /\ VInit /\ pend = << >> /\ fl = << >>

Cmds == {"find", "register", "unregister", "retrieve", "setperiod"}
CmdOf(a) == CASE a.op \in {"find", "retrieve"} -> [op |-> a.op, n |-> a.n]
              [] a.op = "register" -> [op |-> a.op, views |-> a.views]
              [] a.op = "unregister" -> [op |-> a.op, ns |-> a.ns]
              [] a.op = "setperiod" -> [op |-> a.op, d |-> a.d]
At == Ev.t = now

(* the tags of a record call: those of the context, then the call's mutators *)
TagFn(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> (CHOOSE x \in Rng(q) : x[1] = k)[2]]
Mutate(acc, x) ==   \* acc = [ok, tags]; x = <<operation, key, value>>
  IF ~acc.ok THEN acc
  ELSE CASE x[1] = 1 -> IF x[2] \in DOMAIN acc.tags THEN acc ELSE [acc EXCEPT !.tags = Put(@, x[2], x[3])]
         [] x[1] = 2 -> IF x[2] \in DOMAIN acc.tags THEN [acc EXCEPT !.tags = Put(@, x[2], x[3])] ELSE acc
         [] x[1] = 3 -> [acc EXCEPT !.tags = Put(@, x[2], x[3])]
         [] x[1] = 4 -> [acc EXCEPT !.tags = Del(@, x[2])]
         [] OTHER -> [acc EXCEPT !.ok = FALSE]
TagsOf(a) == FoldLeft(Mutate, [ok |-> TRUE, tags |-> TagFn(a.tags)], a.mut)

Seen(m) == IF m \in DOMAIN fl THEN fl[m] ELSE [si |-> FALSE, sr |-> FALSE, xi |-> FALSE, xr |-> FALSE]
Stage(a, s, r) == [a |-> a, s |-> s, r |-> r, rs |-> IF a.op = "read" THEN {mt[a.m].res} ELSE {}, f |-> Seen(a.m)]
Inv == /\ Is("inv") /\ At /\ Ev.th \notin DOMAIN pend
       /\ IF Ev.op = "create" THEN Create(Ev.m) /\ UNCHANGED <<pend, fl>>
          ELSE /\ Ev.m \in DOMAIN mt
               /\ pend' = Put(pend, Ev.th, Stage(Ev, 0, << >>))
               /\ fl' = CASE Ev.op = "start" -> Put(fl, Ev.m, [Seen(Ev.m) EXCEPT !.si = TRUE])
                          [] Ev.op = "stop" -> Put(fl, Ev.m, [Seen(Ev.m) EXCEPT !.xi = TRUE])
                          [] OTHER -> fl
               /\ IF Ev.op = "stop" THEN StopReq(Ev.m) ELSE UNCHANGED vvars
       /\ Step

P(t) == pend[t]
M(t) == pend[t].a.m
Fin(t) == [pend EXCEPT ![t].s = 2]
(* a call takes effect *)
Lin(t) ==
  /\ P(t).s = 0 /\ UNCHANGED fl
  /\ LET a == P(t).a m == a.m IN
     \/ /\ a.op \in Cmds /\ Enqueue(m, [k |-> "cmd", th |-> t, c |-> CmdOf(a)])
        /\ pend' = [pend EXCEPT ![t].s = 1] /\ UNCHANGED <<now, out>>
     \/ /\ a.op = "record"
        /\ LET r == TagsOf(a) IN
           IF ~r.ok
           THEN /\ pend' = [pend EXCEPT ![t].s = 2, ![t].r = IF Uses(m, a.ms) THEN <<TRUE>> ELSE <<TRUE, FALSE>>]
                /\ UNCHANGED vvars
           ELSE /\ pend' = [pend EXCEPT ![t].s = 2, ![t].r = <<FALSE>>]
                /\ \/ Enqueue(m, [k |-> "rec", tags |-> r.tags, ms |-> a.ms, a |-> a.a, t |-> now]) /\ UNCHANGED <<now, out>>
                   \/ (mt[m].st = "dead" \/ mt[m].stopReq \/ ~Uses(m, a.ms)) /\ UNCHANGED vvars
     \/ a.op = "addexp" /\ AddExp(m, a.x) /\ pend' = Fin(t)
     \/ a.op = "delexp" /\ DelExp(m, a.x) /\ pend' = Fin(t)
     \/ a.op = "setres" /\ SetRes(m, a.r)
        /\ pend' = [u \in DOMAIN pend |-> IF u = t THEN [pend[u] EXCEPT !.s = 2]
                      ELSE IF pend[u].a.op = "read" /\ pend[u].a.m = m THEN [pend[u] EXCEPT !.rs = @ \cup {a.r}] ELSE pend[u]]
     \/ a.op = "read" /\ pend' = [pend EXCEPT ![t].s = 2, ![t].r = <<mt[m].views>>] /\ UNCHANGED vvars
     \/ a.op = "start" /\ StartM(m) /\ pend' = Fin(t)
     \/ a.op = "stop" /\ mt[m].st = "dead" /\ pend' = Fin(t) /\ UNCHANGED vvars
     \/ a.op = "prod" /\ pend' = Fin(t) /\ UNCHANGED vvars
(* a command that meets a stopping meter comes back without effect *)
Fail(t) == /\ P(t).a.op \in Cmds /\ t \notin DOMAIN out /\ P(t).s < 2
           /\ \/ P(t).s = 0 /\ mt[M(t)].stopReq
              \/ P(t).s = 1 /\ mt[M(t)].st = "dead"
           /\ out' = Put(out, t, [ok |-> FALSE]) /\ pend' = Fin(t) /\ UNCHANGED <<now, mt, fl>>
DefOK(d, e) == e.n = d.n /\ e.desc = d.desc /\ e.m = d.m /\ e.agg = d.agg /\ e.b = d.b /\ e.keys = d.keys
CmdRet(o, e) ==
  CASE e.op = "find" -> IF o.ok /\ o.v # << >> THEN Len(e.r) = 1 /\ DefOK(o.v[1].def, e.r[1]) ELSE e.r = << >>
    [] e.op = "retrieve" -> IF o.ok /\ o.v # << >> THEN ~e.err /\ RowsOK(o.v[1].def, o.v[1].rows, e.rows) ELSE e.err /\ e.rows = << >>
    [] e.op = "register" -> e.err = (IF o.ok THEN o.err ELSE TRUE)
    [] OTHER -> TRUE
RetOK(e, p) ==
  CASE e.op = "record" -> e.err \in Rng(p.r)
    [] e.op = "read" -> ReadOK(p.r[1], e.r, e.at, p.rs) \/ (mt[e.m].st = "dead" /\ e.r = << >>)
    [] e.op = "prod" -> LET f == Seen(e.m) IN
         /\ e.r => f.si /\ ~p.f.xr
         /\ ~e.r => ~p.f.sr \/ f.xi
    [] OTHER -> TRUE
Ret == /\ Is("ret") /\ At /\ Ev.th \in DOMAIN pend
       /\ IF Ev.op \in Cmds
          THEN Ev.th \in DOMAIN out /\ CmdRet(out[Ev.th], Ev) /\ out' = Del(out, Ev.th) /\ UNCHANGED <<now, mt>>
          ELSE P(Ev.th).s = 2 /\ RetOK(Ev, P(Ev.th)) /\ UNCHANGED vvars
       /\ pend' = Del(pend, Ev.th)
       /\ fl' = CASE Ev.op = "start" -> Put(fl, Ev.m, [Seen(Ev.m) EXCEPT !.sr = TRUE])
                  [] Ev.op = "stop" -> Put(fl, Ev.m, [Seen(Ev.m) EXCEPT !.xr = TRUE])
                  [] OTHER -> fl
       /\ Step
Export == /\ Is("exp") /\ At /\ Ev.m \in DOMAIN mt
          /\ Ev.v = mt[Ev.m].w.cur /\ Ev.v # ""
          /\ Deliver(Ev.m, Ev.x, Ev.v)
          /\ LET v == mt[Ev.m].views[Ev.v] IN
             DefOK(v.def, Ev.def) /\ Ev.s = v.start /\ Ev.n = now /\ RowsOK(v.def, v.rows, Ev.rows)
          /\ UNCHANGED <<pend, fl>> /\ Step
Stable == IsOp("call", "stable") /\ At /\ Ev.bad = 0 /\ UNCHANGED tvars /\ Step
(* internal steps are only taken when the next event needs them *)
Lazy == More /\ (Ev.e # "inv" \/ Ev.t > now)
Blocked(t) == P(t).s = 1 /\ mt[M(t)].st = "new" /\ ~mt[M(t)].stopReq
Internal == \/ \E t \in DOMAIN pend : Lin(t) \/ Fail(t)
            \/ (\E m \in DOMAIN mt : Worker(m)) /\ UNCHANGED <<pend, fl>>
            \/ (\A t \in DOMAIN pend : Blocked(t)) /\ AdvanceTo(Ev.t) /\ UNCHANGED <<pend, fl>>
TNext == Inv \/ Ret \/ Export \/ Stable \/ (Lazy /\ Internal /\ Silent)
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
