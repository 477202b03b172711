---------------------------- MODULE Tracer_Trace -----------------------------
(* Binds Tracer.tla to recorded executions with tracers and spans of the driver.       *)
EXTENDS Tracer, TraceKit
tvars == <<cur, spans, pend>>
TInit == TraceInit0 /\ TrInit(0..4)
InstallE == IsOp("call", "install") /\ Install(Ev.t) /\ Step
MadeE == IsOp("call", "made") /\ Made(Ev.s, Ev.rec, Ev.th2) /\ Step
CallE == IsOp("inv", "do") /\ Call(Ev.th, Ev.f, Ev.s, Ev.a) /\ Step
RetE == IsOp("ret", "do") /\ Ret(Ev.th, Ev.f, Ev.r) /\ Step
(* something arrives at a tracer or a span of the driver *)
ArriveE == IsOp("call", "arrive") /\ pend[Ev.th2] # None /\ pend[Ev.th2].op # "plug"
           /\ (Arrive(Ev.th2, Ev.t, Ev.f, Ev.s, Ev.a, Ev.r) \/ (Ev.f = "IsRecordingEvents" /\ AskRec(Ev.th2, Ev.s))) /\ Step
PlugE == IsOp("inv", "plug") /\ PlugCall(Ev.th, Ev.k, Ev.n) /\ Step
PlugStartE == IsOp("call", "arrive") /\ Ev.f \in {"StartSpan", "StartSpanWithRemoteParent"} /\ PlugStart(Ev.th2, Ev.t, Ev.made, Ev.rec) /\ Step
PlugTellE == IsOp("call", "arrive") /\ Ev.f \in Asked \cup Told /\ PlugTell(Ev.th2, Ev.f, Ev.s) /\ Step
PlugAskE == IsOp("call", "arrive") /\ Ev.f \in {"FromContext", "NewContext"} /\ PlugAsk(Ev.th2, Ev.t) /\ Step
PlugInE == IsOp("call", "in") /\ PlugIn(Ev.th2, Ev.s, Ev.c) /\ Step
PlugRetE == IsOp("ret", "plug") /\ PlugRet(Ev.th) /\ Step
(* nothing reached the exporters of the built-in tracer *)
EndE == IsOp("call", "end") /\ Ev.n = 0 /\ UNCHANGED tvars /\ Step
TNext == InstallE \/ MadeE \/ CallE \/ RetE \/ ArriveE \/ PlugE \/ PlugStartE \/ PlugTellE \/ PlugAskE \/ PlugInE \/ PlugRetE \/ EndE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
