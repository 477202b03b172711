-------------------------- MODULE HttpClient_Trace --------------------------
(* Binds HttpClient.tla to recorded requests. After each step on a request its      *)
(* event tells the spans exported for it so far.                                       *)
EXTENDS HttpClient, TraceKit
VARIABLES from, to   \* times of begin and end
tvars == <<req, from, to>>
On(p) == Prop = p
Rng(q) == {q[i] : i \in 1..Len(q)}
Pairs(q) == {<<x[1], x[2]>> : x \in Rng(q)}
TInit == TraceInit0 /\ CInit /\ from = << >> /\ to = << >>
Cfg == [health |-> Ev.health, local |-> Ev.local, def |-> Ev.def, opt |-> Ev.opt, body |-> Ev.body, clen |-> Ev.clen, method |-> Ev.method,
        name |-> Ev.name, attrs |-> Pairs(Ev.attrs), live |-> Ev.live]
BeginE == IsOp("inv", "send") /\ Begin(Ev.id, Cfg) /\ from' = Put(from, Ev.id, Ev.at) /\ UNCHANGED to /\ Step
(* the time of the end is that of the step that brought it *)
Over == to' = (IF req'[Ev.id].over /\ Ev.id \notin DOMAIN to THEN Put(to, Ev.id, Ev.at) ELSE to) /\ UNCHANGED from
Sent1 == \/ On("C22") /\ Sent(Ev.id, [t |-> Ev.t, s |-> Ev.s, smp |-> Ev.smp])
            (* exactly its context travels in the headers; good: the rest of the request is the caller's *)
            /\ (~req[Ev.id].c.health => (Ev.inj.t = Ev.t /\ Ev.inj.s = Ev.s /\ Ev.inj.smp = Ev.smp)) /\ Ev.good /\ Ev.ts = Ev.lts
         \/ ~On("C22") /\ Ev.id \in DOMAIN req /\ req[Ev.id].st = "begun" /\ req' = [req EXCEPT ![Ev.id].st = "sent", ![Ev.id].span = [t |-> Ev.t, s |-> Ev.s, smp |-> Ev.smp]]
BaseE == IsOp("call", "base") /\ Sent1 /\ UNCHANGED <<from, to>> /\ Step
FailE == IsOp("call", "fail") /\ Fail(Ev.id, Ev.msg) /\ Over /\ Step
AnsE == IsOp("call", "answer") /\ Answer(Ev.id, Ev.s, Ev.n, Ev.body) /\ Over /\ Step
(* --- the spans exported for a request --- *)
SpanIs(r, x) ==
  LET c == r.c IN
  /\ x.t = r.span.t /\ x.s = r.span.s /\ x.smp /\ x.p = c.local.s /\ ~x.rem /\ x.kind = 2 /\ x.name = c.name /\ x.links = << >>
  /\ x.code = r.code /\ x.msg = r.msg
  /\ Pairs(x.attrs) = c.attrs \cup (IF r.clen = -2 THEN {} ELSE {<<"http.status_code", "int64 " \o ToString(r.status)>>})
Exps(r, f, u, exps) ==
  On("C22") => /\ Len(exps) = r.exp
               /\ (r.exp = 1) => (SpanIs(r, exps[1]) /\ (~r.c.live => (exps[1].from = f /\ exps[1].to = u)))
Upto(id) == IF id \in DOMAIN to' THEN to'[id] ELSE 0
Look1(id) == Exps(req'[id], from[id], Upto(id), Ev.exps)
(* same: what the caller gets is what the transport gave; unmod: the caller's request is as it was *)
RetE == /\ IsOp("ret", "send") /\ req[Ev.id].st = "answered" /\ UNCHANGED req /\ Over /\ Look1(Ev.id)
        /\ (On("C22") => (Ev.same /\ Ev.unmod))
        /\ Step
ReadE == IsOp("call", "read") /\ Read(Ev.id, Ev.n, Ev.err) /\ Over /\ Look1(Ev.id) /\ (On("C22") => Ev.same) /\ Step
CloseE == IsOp("call", "close") /\ Close(Ev.id) /\ Over /\ Look1(Ev.id) /\ (On("C22") => Ev.same) /\ Step
OtherE == IsOp("call", "other") /\ UNCHANGED req /\ Over /\ Look1(Ev.id) /\ (On("C22") => Ev.same) /\ Step
(* --- what was recorded so far: by measure rows of tags, count and sum --- *)
One(rows, P(_)) == Len(rows) = 1 /\ P(rows[1])
Stats == /\ IsOp("call", "stats")
         /\ On("C23") =>
            LET r == req[Ev.id] c == r.c
                Tagged(x) == /\ x.host = Ev.host /\ x.method = c.method /\ x.path = Ev.path
                             /\ x.chost = Ev.host /\ x.cmethod = c.method /\ x.cpath = Ev.path /\ x.n = 1
                Final(x) == Tagged(x) /\ x.status = r.status /\ x.cstatus = r.status
                Lat(x) == Final(x) /\ (~c.live => x.sum = to[Ev.id] - from[Ev.id])
                Sent2(x) == Final(x) /\ x.sum = SentBytes(c)
                Recv(x) == Final(x) /\ x.sum = Received(r)
                Read2(x) == Final(x) /\ x.sum = r.bytes
                Cnt(x) == Tagged(x) /\ x.sum = 1
                IN
            IF c.health THEN \A m \in {Ev.count, Ev.sent, Ev.received, Ev.rtt, Ev.latency, Ev.resp, Ev.reqs} : m = << >>
            ELSE /\ One(Ev.count, Cnt)
                 /\ IF r.rec = 0 THEN \A m \in {Ev.sent, Ev.received, Ev.rtt, Ev.latency, Ev.resp, Ev.reqs} : m = << >>
                    ELSE /\ One(Ev.sent, Sent2) /\ One(Ev.received, Recv) /\ One(Ev.rtt, Lat) /\ One(Ev.latency, Lat) /\ One(Ev.resp, Read2)
                         /\ IF c.body THEN One(Ev.reqs, Sent2) ELSE Ev.reqs = << >>
         /\ UNCHANGED tvars /\ Step
(* no other span was exported *)
EndE == IsOp("call", "end") /\ (On("C22") => Ev.n = Cardinality({id \in DOMAIN req : req[id].exp = 1})) /\ UNCHANGED tvars /\ Step
TNext == BeginE \/ BaseE \/ FailE \/ AnsE \/ RetE \/ ReadE \/ CloseE \/ OtherE \/ Stats \/ EndE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
