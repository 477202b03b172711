-------------------------- MODULE HttpChain_Trace ---------------------------
(* Binds HttpChain.tla to recorded executions: services on real connections, or       *)
(* handlers called by the transport.                                                     *)
EXTENDS HttpChain, TraceKit
tvars == hvars
X(e) == [t |-> e.t, s |-> e.s, smp |-> e.smp, ts |-> e.ts]
TInit == TraceInit0 /\ HInit
C(e) == [health |-> e.health, shealth |-> e.shealth, match |-> e.match, fmt |-> e.fmt, copt |-> e.copt, sopt |-> e.sopt, public |-> e.public, abort |-> e.abort, name |-> e.name]
LocalE == IsOp("call", "local") /\ Local(Ev.h, Ev.by, Ev.def, Ev.opt, Ev.name, X(Ev.x)) /\ Step
SendE == IsOp("call", "send") /\ Send(Ev.q, Ev.by, C(Ev)) /\ Step
WireE == IsOp("call", "wire") /\ Wire(Ev.q, Ev.h, Ev.def, X(Ev.x)) /\ Step
ExtE == IsOp("call", "ext") /\ Ext(Ev.q, C(Ev), X(Ev.x)) /\ Step
ArriveE == IsOp("call", "arrive") /\ Arrive(Ev.q, Ev.h, Ev.def, X(Ev.x)) /\ Step
ReplyE == IsOp("call", "reply") /\ (IF Ev.err THEN Broken(Ev.q) ELSE Reply(Ev.q, Ev.of)) /\ Step
(* what was exported: each sampled span once, as it is, and nothing else *)
Shows(e, n) == /\ X(e) = n.sc /\ e.p = n.p /\ e.rem = n.rem /\ e.kind = n.kind /\ e.name = n.name
               /\ IF n.link = NoSC THEN e.links = << >> ELSE Len(e.links) = 1 /\ e.links[1].t = n.link.t /\ e.links[1].s = n.link.s /\ e.links[1].ty = 2
EndE == /\ IsOp("call", "end")
        /\ Len(Ev.exps) = Cardinality(Sampled)
        /\ \A h \in Sampled : \E i \in 1..Len(Ev.exps) : Ev.exps[i].s = node[h].sc.s /\ Shows(Ev.exps[i], node[h])
        /\ \A q \in DOMAIN req : req[q].st = "done"
        /\ UNCHANGED tvars /\ Step
TNext == LocalE \/ SendE \/ WireE \/ ExtE \/ ArriveE \/ ReplyE \/ EndE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
