-------------------------- MODULE SpanExport_Trace --------------------------
EXTENDS SpanExport, TraceKit
TInit == Init /\ TraceInit0
TNext ==
  \/ IsOp("call", "start") /\ Start(Ev.s, Ev.sampled) /\ Step
  \/ Is("inv") /\ Inv(Ev.th, Ev.op, Ev.arg) /\ Step
  \/ (NextIs("ret") \/ NextIs("del")) /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent
  \/ Is("del") /\ Deliver(Ev.s, Ev.x) /\ Step
  \/ Is("ret") /\ Ret(Ev.th) /\ Step
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
=============================================================================
