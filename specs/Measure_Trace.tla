---------------------------- MODULE Measure_Trace ----------------------------
(* Binds Measure.tla to recorded executions. lo counts the record calls that began    *)
(* after a view of the name was registered and have returned.                          *)
EXTENDS Measure, TraceKit
VARIABLES pend, lo
tvars == <<msvars, pend, lo>>
TInit == TraceInit0 /\ MInit /\ pend = << >> /\ lo = << >>
Inv == /\ Is("inv") /\ Ev.th \notin DOMAIN pend
       /\ pend' = MPut(pend, Ev.th, [a |-> Ev, s |-> Ev.op # "make", must |-> IF Ev.op = "rec" THEN Ev.n \in views ELSE FALSE,
                                     lo |-> IF Ev.op = "get" THEN At0(lo, Ev.n) ELSE 0, reg |-> IF Ev.op = "get" THEN Ev.n \in views ELSE FALSE])
       /\ (IF Ev.op = "rec" THEN RecBegin(Ev.n, Ev.k) ELSE UNCHANGED msvars) /\ UNCHANGED lo /\ Step
Lin(t) == ~pend[t].s /\ Make(pend[t].a.n, pend[t].a.d) /\ pend' = [pend EXCEPT ![t].s = TRUE] /\ UNCHANGED lo
Ret == /\ Is("ret") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].s /\ pend' = [x \in DOMAIN pend \ {Ev.th} |-> pend[x]]
       /\ LET a == pend[Ev.th].a p == pend[Ev.th] IN
          CASE a.op = "make" -> Ev.nm /\ Ev.d = desc[a.n] /\ UNCHANGED <<msvars, lo>>
            [] a.op = "reg" -> ~Ev.err /\ RegView(a.n) /\ UNCHANGED lo
            [] a.op = "rec" -> RecEnd(a.n, a.k) /\ lo' = (IF p.must THEN MPut(lo, a.n, At0(lo, a.n) + a.k) ELSE lo)
            [] a.op = "get" -> /\ (Ev.err => ~p.reg) /\ (~Ev.err => p.lo <= Ev.c /\ Ev.c <= At0(began, a.n) /\ Ev.s = 3 * Ev.c)
                               /\ UNCHANGED <<msvars, lo>>
       /\ Step
(* what a handle says at any later time *)
Look == /\ IsOp("call", "look") /\ Ev.nm /\ Ev.d = desc[Ev.n] /\ UNCHANGED tvars /\ Step
TNext == Inv \/ Ret \/ Look \/ (More /\ Ev.e = "ret" /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent)
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
