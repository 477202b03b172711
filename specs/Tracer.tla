------------------------------- MODULE Tracer --------------------------------
(* The pluggable tracer (trace.DefaultTracer, trace.NewSpan): what a program or a       *)
(* plugin does with the package functions and with *Span arrives at the installed         *)
(* tracer and at its spans, once and as it was said, and their answers come back.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cur,    \* the installed tracer
          spans,  \* span -> [rec, by (tracer), th (thread that may use it), ended]
          pend    \* thread -> the call under way
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == [op |-> ""]
TrInit(ths) == cur = 1 /\ spans = << >> /\ pend = [th \in ths |-> None]
Funcs == {"StartSpan", "StartSpanWithRemoteParent", "FromContext", "NewContext"}
(* span methods: those asked of every span, and those only of a span that records *)
Asked == {"IsRecordingEvents", "End", "SpanContext", "String"}
Told == {"SetName", "SetStatus", "AddAttributes", "Annotate", "Annotatef", "AddMessageSendEvent", "AddMessageReceiveEvent", "AddLink"}
Install(t) == (\A th \in DOMAIN pend : pend[th] = None) /\ cur' = t /\ UNCHANGED <<spans, pend>>
(* a span of the program's own: rec, whether it records *)
Made(s, rec, th) == s \notin DOMAIN spans /\ spans' = Put(spans, s, [rec |-> rec, th |-> th, ended |-> 0]) /\ UNCHANGED <<cur, pend>>
(* does a call have to arrive: at the tracer always, at a span unless it is nil (0) or does not record *)
Due(op, s) == IF op \in Funcs THEN 1 ELSE IF s = 0 THEN 0 ELSE IF op \in Asked THEN 1 ELSE IF spans[s].rec THEN 1 ELSE 0
Call(th, op, s, a) == /\ pend[th] = None /\ (s = 0 \/ s \in DOMAIN spans)
                      /\ pend' = [pend EXCEPT ![th] = [op |-> op, s |-> s, a |-> a, due |-> Due(op, s), res |-> ""]] /\ UNCHANGED <<cur, spans>>
(* it arrives at the tracer t (or at the span s) with a, and is answered with r *)
Arrive(th, t, op, s, a, r) ==
  LET p == pend[th] IN
  /\ p.op = op /\ p.s = s /\ p.a = a /\ p.due = 1 /\ (op \in Funcs => t = cur)
  /\ pend' = [pend EXCEPT ![th].due = 0, ![th].res = r] /\ UNCHANGED <<cur, spans>>
(* whether a span records may be asked whenever one of its methods is called *)
AskRec(th, s) == pend[th].op \in Told /\ pend[th].s = s /\ UNCHANGED <<cur, spans, pend>>
(* what nil answers *)
NilAnswer(op) == CASE op = "IsRecordingEvents" -> "false" [] op = "SpanContext" -> "zero" [] op = "String" -> "<nil>" [] OTHER -> ""
Ret(th, op, r) == LET p == pend[th] IN
  /\ p.op = op /\ p.due = 0
  /\ r = (IF op \in Asked /\ p.s = 0 THEN NilAnswer(op) ELSE p.res)
  /\ pend' = [pend EXCEPT ![th] = None] /\ UNCHANGED <<cur, spans>>
(* --- a request handled by a plugin: one span of the installed tracer (none: a health check), ended --- *)
PlugCall(th, k, n) == pend[th] = None /\ pend' = [pend EXCEPT ![th] = [op |-> "plug", k |-> k, n |-> n, got |-> {}, s |-> 0, a |-> "", due |-> 0, res |-> ""]] /\ UNCHANGED <<cur, spans>>
PlugStart(th, t, s, rec) ==
  /\ pend[th].op = "plug" /\ t = cur /\ s \notin DOMAIN spans /\ Cardinality(pend[th].got) < pend[th].n
  /\ spans' = Put(spans, s, [rec |-> rec, th |-> th, ended |-> 0])
  /\ pend' = [pend EXCEPT ![th].got = @ \cup {s}] /\ UNCHANGED cur
PlugTell(th, op, s) == /\ pend[th].op = "plug" /\ s \in pend[th].got
                       /\ (op \in Told => spans[s].rec)
                       /\ spans' = (IF op = "End" THEN [spans EXCEPT ![s].ended = @ + 1] ELSE spans) /\ UNCHANGED <<cur, pend>>
PlugAsk(th, t) == pend[th].op = "plug" /\ t = cur /\ UNCHANGED <<cur, spans, pend>>
(* in: the span that the request's handler (or transport) finds in its context, and whose context that is *)
PlugIn(th, s, c) == pend[th].op = "plug" /\ c = (IF s = 0 THEN "p" ELSE "c" \o ToString(s)) /\ s = (IF pend[th].n = 0 THEN 0 ELSE CHOOSE x \in pend[th].got : TRUE) /\ UNCHANGED <<cur, spans, pend>>
PlugRet(th) == /\ pend[th].op = "plug" /\ Cardinality(pend[th].got) = pend[th].n /\ \A s \in pend[th].got : spans[s].ended >= 1
               /\ pend' = [pend EXCEPT ![th] = None] /\ UNCHANGED <<cur, spans>>
=============================================================================
