-------------------------- MODULE HttpServer_Trace --------------------------
(* Binds HttpServer.tla to recorded requests. Events carry the request's number.  *)
EXTENDS HttpServer, TraceKit
VARIABLES now
tvars == <<req, now>>
On(p) == Prop = p
Rng(q) == {q[i] : i \in 1..Len(q)}
TInit == TraceInit0 /\ SInit /\ now = 0
Cfg == [health |-> Ev.health, public |-> Ev.public, remote |-> Ev.remote, local |-> Ev.local, def |-> Ev.def, opt |-> Ev.opt, body |-> Ev.body, clen |-> Ev.clen,
        name |-> Ev.name, attrs |-> {<<x[1], x[2]>> : x \in Rng(Ev.attrs)}, ifs |-> Ev.ifs, live |-> Ev.live, at |-> Ev.at]
BeginE == IsOp("inv", "serve") /\ Begin(Ev.id, Cfg) /\ UNCHANGED now /\ Step
Ctx(x) == [t |-> x.t, s |-> x.s, smp |-> x.smp]
Keep == UNCHANGED now
(* good: the request the handler got is the one sent; tagged: its context has the route; ifs: the optional interfaces its writer has *)
EnterE == /\ IsOp("call", "in") /\ Ev.good
          /\ IF On("C20") THEN Enter(Ev.id, Ctx(Ev)) /\ (~req[Ev.id].c.health => Ev.ts = (IF Remote(req[Ev.id].c) # None THEN Ev.rts ELSE Ev.lts))
             ELSE EnterAny(Ev.id, Ctx(Ev)) /\ Ev.tagged /\ (~req[Ev.id].c.live => Ev.ifs = req[Ev.id].c.ifs)
          /\ Keep /\ Step
(* calls of the writer: what arrived underneath is the same, as are the results *)
Thru == IF On("C20") \/ req[Ev.id].c.live THEN TRUE ELSE Ev.same
WH == IsOp("call", "wh") /\ WriteHeader(Ev.id, Ev.s) /\ Thru /\ Keep /\ Step
WR == IsOp("call", "write") /\ Write(Ev.id, Ev.n) /\ Thru /\ Keep /\ Step
RF == IsOp("call", "rf") /\ ReadFrom(Ev.id, Ev.n) /\ Thru /\ Keep /\ Step
FL == IsOp("call", "flush") /\ Flush(Ev.id) /\ Thru /\ Keep /\ Step
HJ == IsOp("call", "hijack") /\ Hijack(Ev.id) /\ Thru /\ Keep /\ Step
OT == IsOp("call", "other") /\ Other(Ev.id) /\ Thru /\ Keep /\ Step
RO == IsOp("call", "route") /\ (IF Ev.set THEN SetRoute(Ev.id, Ev.x) ELSE Route(Ev.id, Ev.x)) /\ Keep /\ Step
OutE == IsOp("call", "out") /\ Leave(Ev.id, Ev.pan) /\ Keep /\ Step
(* the span as exported *)
Who == {id \in DOMAIN req : req[id].st = "left" /\ ~req[id].c.health /\ req[id].span.t = Ev.t /\ req[id].span.s = Ev.s}
Exp == /\ IsOp("call", "exp") /\ On("C20")
       /\ \E id \in Who : LET r == req[id] c == r.c IN
          /\ Export(id, Ev.status)
          /\ Ev.smp /\ Ev.p = Parent(c).s /\ Ev.rem = (Remote(c) # None) /\ Ev.kind = 1 /\ Ev.name = c.name
          /\ Ev.links = Links(c)
          /\ Ev.code = Code(Ev.status) /\ Ev.msg = CodeName[Ev.code]
          /\ {<<x[1], x[2]>> : x \in Rng(Ev.attrs)} = c.attrs
          /\ Ev.sends = r.sends
          /\ Ev.recvs = (IF c.body /\ c.clen > 0 THEN <<c.clen>> ELSE << >>)
          /\ ~c.live => (Ev.from = c.at /\ Ev.to = Ev.at)
       /\ Keep /\ Step
ExpAny == IsOp("call", "exp") /\ ~On("C20") /\ UNCHANGED tvars /\ Step
DoneE == IsOp("ret", "serve") /\ (IF On("C20") THEN Done(Ev.id) ELSE DoneAny(Ev.id)) /\ Ev.pan = req[Ev.id].pan /\ Ev.val /\ now' = Ev.at /\ Step
(* what the client saw *)
Got == /\ IsOp("call", "got")
       /\ LET r == req[Ev.id] IN (On("C21") /\ ~r.pan /\ ~r.hij) => (~Ev.err /\ Ev.status = (IF r.sent = 0 THEN 200 ELSE r.sent) /\ Ev.n = r.amount)
       /\ UNCHANGED tvars /\ Step
(* the statistics of a request, by measure: rows [host, method, path, status, route, count, sum] *)
One(rows, P(_)) == Len(rows) = 1 /\ P(rows[1])
Stats == /\ IsOp("call", "stats")
         /\ LET r == req[Ev.id] c == r.c
                Tagged(x) == x.host = Ev.host /\ x.method = Ev.method /\ x.path = Ev.path
                Final(x) == Tagged(x) /\ StatusOK(r, x.status) /\ RouteOK(r, x.route) /\ x.n = 1 IN
            (c.health \/ ~On("C21")) \/
            /\ r.st = "done"
            /\ LET P(x) == Tagged(x) /\ x.n = 1 /\ x.sum = 1 /\ x.status = 0 IN One(Ev.count, P)
            /\ LET P(x) == Final(x) /\ (~c.live => x.sum = Ev.took) IN One(Ev.latency, P)
            /\ LET P(x) == Final(x) /\ x.sum = r.amount IN One(Ev.resp, P)
            /\ LET P(x) == Final(x) /\ x.sum = ReqSize(c) IN IF ReqSize(c) < 0 THEN Ev.reqs = << >> ELSE One(Ev.reqs, P)
         /\ UNCHANGED tvars /\ Step
TNext == BeginE \/ EnterE \/ WH \/ WR \/ RF \/ FL \/ HJ \/ OT \/ RO \/ OutE \/ Exp \/ ExpAny \/ DoneE \/ Got \/ Stats
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
