--------------------------- MODULE Reader_Trace -----------------------------
(* Binds Reader.tla to recorded executions of readers and producers (virtual time) *)
EXTENDS Reader, TraceKit
VARIABLES
  pend,  \* calls in progress by thread
  exps   \* exports made: span -> the name it was to have (an ended span goes)
tvars == <<rvars, pend, exps>>
TInit == TraceInit0 /\ RInit /\ pend = << >> /\ exps = << >>
At == Ev.t = now
Direct == {"flush", "rae"}
Inv == /\ Is("inv") /\ At /\ Ev.th \notin DOMAIN pend
       /\ pend' = Put(pend, Ev.th, [a |-> Ev, s |-> 0, r |-> FALSE, l |-> << >>])
       /\ IF Ev.op \in Direct THEN CallB(Ev.th, Ev.r, Ev.op = "flush") ELSE UNCHANGED rvars
       /\ Step
(* a call takes effect *)
Lin(t) ==
  LET a == pend[t].a Res(e) == pend' = [pend EXCEPT ![t].s = 1, ![t].r = e] IN
  /\ pend[t].s = 0
  /\ CASE a.op = "padd" -> AddProd(a.p) /\ Res(FALSE)
       [] a.op = "pdel" -> DelProd(a.p) /\ Res(FALSE)
       [] a.op = "getall" -> pend' = [pend EXCEPT ![t].s = 1, ![t].l = prods] /\ UNCHANGED rvars
       [] a.op = "new" -> (IF a.bad THEN UNCHANGED rvars ELSE NewReader(a.r)) /\ Res(a.bad)
       [] a.op = "setint" -> SetInt(a.r, a.d) /\ Res(FALSE)
       [] a.op = "start" -> IF a.r = 0 THEN Res(TRUE) /\ UNCHANGED rvars ELSE Start(a.r) /\ Res(StartErr(a.r))
       [] a.op = "stop" -> Res(FALSE) /\ IF a.r = 0 THEN UNCHANGED rvars ELSE Stop(a.r)
       [] a.op = "rae" -> CallGo(t) /\ Res(FALSE)
       [] a.op = "flush" -> Res(FALSE) /\ IF a.r = 0 \/ (a.r # 0 /\ rdr[a.r].run) THEN CallSkip(t) ELSE CallGo(t)
Ret == /\ Is("ret") /\ At /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].s = 1
       /\ Ev.op \in {"new", "start"} => Ev.err = pend[Ev.th].r
       /\ Ev.op = "getall" => Len(Ev.l) = Cardinality(pend[Ev.th].l) /\ {Ev.l[i] : i \in 1..Len(Ev.l)} = pend[Ev.th].l
       /\ IF Ev.op \in Direct THEN CallR(Ev.th) ELSE UNCHANGED rvars
       /\ pend' = Del(pend, Ev.th) /\ Step
NewP == IsOp("call", "newprod") /\ At /\ NewProd(Ev.p, Ev.n) /\ UNCHANGED pend /\ Step
Read == IsOp("call", "pread") /\ At /\ ReadProd(Ev.p, Ev.n) /\ UNCHANGED pend /\ Step
(* the exporter is called; its name is the reader it was made for *)
Exp == /\ IsOp("call", "exp") /\ At /\ UNCHANGED pend
       /\ \/ Ev.r \in DOMAIN rdr /\ LoopExp(Ev.r, Ev.d)
          \/ \E i \in DOMAIN calls : calls[i].x = Ev.r /\ CallExp(i, Ev.d)
       /\ Step
ExpEnd == /\ IsOp("call", "expend") /\ At /\ UNCHANGED pend
          /\ \/ Ev.r \in DOMAIN rdr /\ LoopEnd(Ev.r)
             \/ \E i \in DOMAIN calls : calls[i].x = Ev.r /\ CallEnd(i)
          /\ Step
(* the end: nothing is left unexported that was read *)
End == IsOp("call", "end") /\ At /\ pend = << >> /\ {n \in DOMAIN reads : size[reads[n]] > 0} = {} /\ exps = << >> /\ UNCHANGED <<rvars, pend>> /\ Step
(* each export runs under a span of its own, a new trace's, named as its reader was told, which ends with it *)
Under   == Ev.sp > 0 /\ Ev.sp \notin DOMAIN exps /\ exps' = Put(exps, Ev.sp, Ev.name)
SpanEnd == IsOp("call", "span") /\ At /\ Ev.root /\ Ev.s \in DOMAIN exps /\ exps[Ev.s] = Ev.name /\ exps' = Del(exps, Ev.s)
           /\ UNCHANGED <<rvars, pend>> /\ Step
Lazy == More /\ (Ev.e = "ret" \/ Ev.op \in {"exp", "pread"})
Internal == /\ \/ Lazy /\ \E t \in DOMAIN pend : Lin(t)
               \/ (\E r \in DOMAIN rdr : Tick(r)) /\ UNCHANGED pend
            /\ Silent
Blocked(t) == LET a == pend[t].a IN
  \/ a.op = "stop" /\ a.r # 0 /\ Exporting(a.r)
  \/ a.op \in Direct /\ calls[t].st = "busy"
NextTick == {rdr[r].next : r \in Runners}
Advance == /\ More /\ Ev.t > now /\ \A t \in DOMAIN pend : Blocked(t)
           /\ \E u \in NextTick \cup {Ev.t} : u <= Ev.t /\ Later(u)
           /\ UNCHANGED pend /\ Silent
TNext == \/ (Inv \/ Ret \/ NewP \/ Read \/ ExpEnd \/ End \/ Internal \/ Advance) /\ UNCHANGED exps
         \/ Exp /\ Under
         \/ SpanEnd
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
