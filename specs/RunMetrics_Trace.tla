------------------------- MODULE RunMetrics_Trace ---------------------------
(* Binds RunMetrics.tla to recorded executions of runmetrics                   *)
EXTENDS RunMetrics, TraceKit
VARIABLES pend
tvars == <<xvars, pend>>
TInit == TraceInit0 /\ XInit /\ pend = << >>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Inv == Is("inv") /\ Ev.th \notin DOMAIN pend /\ pend' = Put(pend, Ev.th, [a |-> Ev, s |-> 0]) /\ UNCHANGED xvars /\ Step
Lin(t) == LET a == pend[t].a IN
  /\ pend[t].s = 0 /\ pend' = [pend EXCEPT ![t].s = 1]
  /\ CASE a.op = "enable" -> Enable(a.o)
       [] a.op = "disable" -> Disable
       [] a.op = "delrt" -> DelRuntime
       [] a.op = "padd" -> AddOther(a.p)
       [] a.op = "pdel" -> DelOther(a.p)
Ret == /\ Is("ret") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].s = 1
       /\ Ev.op = "enable" => ~Ev.err
       /\ pend' = Del(pend, Ev.th) /\ UNCHANGED xvars /\ Step
Internal == Is("ret") /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent
(* a quiescent look at the manager *)
Look == /\ IsOp("call", "look") /\ pend = << >>
        /\ Ev.rt = Registered /\ Len(Ev.others) = Cardinality(others) /\ Rng(Ev.others) = others
        /\ UNCHANGED tvars /\ Step
(* a read: every metric once, with the value of its statistic between the values  *)
(* before and after the read (values are given by rank)                           *)
Read == /\ IsOp("call", "read") /\ pend = << >> /\ cur.on
        /\ LET w == Wanted(cur.o) IN
           /\ {[n |-> m.n, u |-> m.u, ty |-> m.ty] : m \in Rng(Ev.ms)} = {[n |-> x.n, u |-> x.u, ty |-> x.ty] : x \in w}
           /\ Len(Ev.ms) = Cardinality(w)
           /\ \A m \in Rng(Ev.ms) : /\ m.nts = 1 /\ m.npt = 1 /\ m.nl = 0
                 /\ LET x == CHOOSE x \in w : x.n = m.n b == Ev.f[x.f] IN b[1] <= m.v /\ m.v <= b[2]
        /\ UNCHANGED tvars /\ Step
TNext == Inv \/ Ret \/ Internal \/ Look \/ Read
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
