----------------------------- MODULE Grpc_Trace -----------------------------
(* Binds Grpc.tla to recorded calls of the stats handlers. A call of HandleRPC takes *)
(* effect between its "inv" and "ret" (th is the number of the call).                  *)
EXTENDS Grpc, TraceKit
VARIABLES pend,
          iv    \* id -> its messages: [x, from, to], the interval in which each took effect
tvars == <<rpc, pend, iv>>
On(p) == Prop = p
Rng(q) == {q[i] : i \in 1..Len(q)}
Fun(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> LET i == CHOOSE i \in 1..Len(q) : q[i][1] = k IN q[i][2]]
TInit == TraceInit0 /\ GInit /\ pend = << >> /\ iv = << >>
Ctx(x) == [t |-> x.t, s |-> x.s, smp |-> x.smp]
Cfg == [client |-> Ev.client, method |-> Ev.method, name |-> Ev.name, remote |-> Ctx(Ev.remote), local |-> Ctx(Ev.local), public |-> Ev.public, def |-> Ev.def, opt |-> Ev.opt,
        tags |-> Fun(Ev.tags), ptags |-> Fun(Ev.ptags), live |-> Ev.live, ff |-> Ev.ff]
(* cid: the client RPC whose metadata a server got; md: the contexts in the outgoing metadata; pay: the tags in the outgoing payload *)
TagE == /\ IsOp("call", "tag")
        /\ IF On("C24") THEN Tag(Ev.id, Cfg, Ctx(Ev), Ev.at) ELSE TagAny(Ev.id, Cfg, Ctx(Ev), Ev.at)
        /\ On("C24") => (/\ Ev.kept
                         /\ Ev.client => (Len(Ev.md) = 1 /\ Ctx(Ev.md[1]) = Ctx(Ev))
                         /\ (Ev.cid # 0) => Ctx(Ev.remote) = rpc[Ev.cid].span)
        /\ On("C25") => (/\ Fun(Ev.ctags) = Tags(Cfg)
                         /\ Ev.client => (Len(Ev.pay) = Cardinality(DOMAIN Cfg.ptags) /\ Fun(Ev.pay) = Cfg.ptags)
                         /\ (Ev.cid # 0) => Cfg.tags = rpc[Ev.cid].c.ptags)
        /\ UNCHANGED pend /\ iv' = Put(iv, Ev.id, << >>) /\ Step
Eff(e) == CASE e.op = "begin" -> Begin(e.id) [] e.op = "out" -> Message(e.id, TRUE, e.n, e.w) [] e.op = "in" -> Message(e.id, FALSE, e.n, e.w)
            [] e.op = "end" -> End(e.id, e.code, e.msg, e.at) [] OTHER -> UNCHANGED rpc
Ops == {"begin", "out", "in", "end", "other"}
Inv == Is("inv") /\ Ev.op \in Ops /\ pend' = Put(pend, Ev.th, [e |-> Ev, from |-> l]) /\ UNCHANGED <<rpc, iv>> /\ Step
(* the messages q happened in the order es: of two that did not overlap the earlier is first *)
RECURSIVE Order(_, _)
Order(es, q) ==
  IF es = << >> THEN q = {}
  ELSE LET first == {m \in q : \A o \in q : o = m \/ m.from < o.to}
           cand == {m \in first : m.x = es[1]} IN
       cand # {} /\ Order(Tail(es), q \ {CHOOSE m \in cand : \A o \in cand : m.to <= o.to})
SpanIs(r, q, x) ==
  LET c == r.c IN
  /\ x.t = r.span.t /\ x.s = r.span.s /\ x.smp /\ x.p = Parent(c).s /\ x.rem = (Remote(c) # None) /\ x.kind = (IF c.client THEN 2 ELSE 1) /\ x.name = c.name
  /\ {[t |-> y.t, s |-> y.s] : y \in Rng(x.links)} = Rng(Links(c)) /\ Len(x.links) = Len(Links(c))
  /\ IF r.code = -1 THEN x.code # 0 ELSE x.code = r.code
  /\ x.msg = r.msg /\ Len(x.evs) = Len(r.evs) /\ Order(x.evs, q)
  /\ r.began => {<<y[1], y[2]>> : y \in Rng(x.attrs)} = {<<"Client", c.client>>, <<"FailFast", c.ff>>}
  /\ (~c.live) => (x.from = r.from /\ x.to = r.to)
Exps(r, q, exps) == On("C24") => (/\ Len(exps) = (IF Exported(r) THEN 1 ELSE 0)
                               /\ Exported(r) => SpanIs(r, q, exps[1]))
Counts(e) == e.op \in {"in", "out"} /\ rpc[e.id].st = "run"
Ret == /\ Is("ret") /\ Ev.op \in Ops /\ Ev.th \in DOMAIN pend
       /\ LET p == pend[Ev.th] e == p.e IN
          /\ Eff(e)
          /\ iv' = (IF Counts(e) THEN [iv EXCEPT ![e.id] = Append(@, [x |-> <<IF e.op = "out" THEN 1 ELSE 2, e.n, e.w>>, from |-> p.from, to |-> l])] ELSE iv)
          /\ ("exps" \in DOMAIN Ev) => Exps(rpc'[e.id], Rng(iv'[e.id]), Ev.exps)
       /\ pend' = [o \in DOMAIN pend \ {Ev.th} |-> pend[o]] /\ Step
(* --- the rows of the views: v = [client, m, ks, cnt, rows] --- *)
Atts(J) == {rpc[i].span : i \in {i \in J : rpc[i].span.smp}}
RowOK(v, R, x) == /\ x.k \in DOMAIN R
                  /\ LET y == R[x.k] IN
                     /\ x.n = y.n
                     /\ (~v.cnt /\ ~(v.m = "lat" /\ Ev.live)) => x.sum = y.sum
                     /\ (v.ex /\ v.m # "begun") => (IF Atts(y.who) = {} THEN Len(x.att) = 0 ELSE Len(x.att) = 1 /\ Ctx(x.att[1]) \in Atts(y.who))
ViewOK(v) == LET R == Rows(v.client, v.m, v.ks) IN Len(v.rows) = Cardinality(DOMAIN R) /\ {v.rows[i].k : i \in 1..Len(v.rows)} = DOMAIN R /\ \A i \in 1..Len(v.rows) : RowOK(v, R, v.rows[i])
Views == IsOp("call", "views") /\ pend = << >> /\ (On("C25") => \A i \in 1..Len(Ev.views) : ViewOK(Ev.views[i])) /\ UNCHANGED tvars /\ Step
(* no other span was exported *)
EndE == IsOp("call", "done") /\ (On("C24") => Ev.n = Cardinality({id \in DOMAIN rpc : Exported(rpc[id])})) /\ UNCHANGED tvars /\ Step
TNext == TagE \/ Inv \/ Ret \/ Views \/ EndE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
