------------------------------ MODULE Tracer_MC ------------------------------
(* Two threads, two tracers: all orders of calls; what arrives is counted apart.       *)
EXTENDS Tracer
CONSTANTS Threads, Spans, MaxOps
VARIABLES arrived,  \* calls that arrived, in order
          returned, ops
mcv == <<cur, spans, pend, arrived, returned, ops>>
MCInit == TrInit(Threads) /\ arrived = << >> /\ returned = << >> /\ ops = 0
C == ops < MaxOps /\ ops' = ops + 1 /\ \E th \in Threads, op \in {"StartSpan", "FromContext", "SetName", "End", "String", "IsRecordingEvents"}, s \in {0} \cup Spans :
       (op \in Funcs => s = 0) /\ (s # 0 => s \in DOMAIN spans /\ spans[s].th = th) /\ Call(th, op, s, ops) /\ UNCHANGED <<arrived, returned>>
A == \E th \in Threads, t \in {1, 2} : pend[th] # None /\ pend[th].op # "plug"
       /\ Arrive(th, t, pend[th].op, pend[th].s, pend[th].a, "r") /\ arrived' = Append(arrived, <<t, pend[th].op, pend[th].s, pend[th].a>>) /\ UNCHANGED <<returned, ops>>
R == \E th \in Threads : pend[th] # None /\ pend[th].op # "plug" /\ \E r \in {"", "r", "false", "<nil>"} : Ret(th, pend[th].op, r)
       /\ returned' = Append(returned, <<pend[th].op, pend[th].s, pend[th].a, r>>) /\ UNCHANGED <<arrived, ops>>
M == \E s \in Spans, b \in BOOLEAN, th \in Threads : Made(s, b, th) /\ UNCHANGED <<arrived, returned, ops>>
I == \E t \in {1, 2} : t # cur /\ Install(t) /\ ops < MaxOps /\ UNCHANGED <<arrived, returned, ops>>
PC == ops < MaxOps /\ ops' = ops + 1 /\ \E th \in Threads, n \in {0, 1} : PlugCall(th, "http", n) /\ UNCHANGED <<arrived, returned>>
PS == \E th \in Threads, s \in Spans, b \in BOOLEAN : PlugStart(th, cur, s, b) /\ UNCHANGED <<arrived, returned, ops>>
PE == \E th \in Threads, s \in DOMAIN spans : pend[th] # None /\ pend[th].op = "plug" /\ spans[s].ended < 2 /\ PlugTell(th, "End", s) /\ UNCHANGED <<arrived, returned, ops>>
PR == \E th \in Threads : pend[th] # None /\ PlugRet(th) /\ UNCHANGED <<arrived, returned, ops>>
MCNext == C \/ A \/ R \/ M \/ I \/ PC \/ PS \/ PE \/ PR
MCSpec == MCInit /\ [][MCNext]_mcv
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
(* what returned arrived before exactly once, at one tracer, unless nobody is to hear it *)
Once == \A i \in 1..Len(returned) : LET x == returned[i] n == Count(arrived, LAMBDA a : a[4] = x[3]) IN
  IF x[2] = 0 /\ x[1] \notin Funcs THEN n = 0
  ELSE IF x[1] \in Told /\ ~spans[x[2]].rec THEN n = 0 ELSE n = 1
Nobody == \A i \in 1..Len(arrived) : arrived[i][3] # 0 => arrived[i][3] \in DOMAIN spans
Ends == [][\A th \in Threads : (pend[th].op = "plug" /\ pend'[th] = None) => \A s \in pend[th].got : spans[s].ended >= 1]_mcv
=============================================================================
