------------------------- MODULE TraceState_Trace ---------------------------
(* Binds TraceState.tla to recorded calls of tracestate.New. Strings are named   *)
(* by number; a "str" event gives the bytes.                                     *)
EXTENDS TraceState, TraceKit
VARIABLES str, pend
tvars == <<obj, str, pend>>
TInit == TraceInit0 /\ SInit /\ str = << >> /\ pend = << >>
K(k) == KeyOK(str[k])
V(v) == ValOK(str[v])
Str == IsOp("call", "str") /\ str' = [x \in DOMAIN str \cup {Ev.i} |-> IF x = Ev.i THEN Ev.b ELSE str[x]] /\ UNCHANGED <<obj, pend>> /\ Step
Inv == Is("inv") /\ Ev.op = "new" /\ Ev.th \notin DOMAIN pend /\ pend' = [x \in DOMAIN pend \cup {Ev.th} |-> IF x = Ev.th THEN Ev ELSE pend[x]]
       /\ UNCHANGED <<obj, str>> /\ Step
(* same: the parent, all older objects and the caller's slice are as before *)
Ret == /\ Is("ret") /\ Ev.op = "new" /\ Ev.th \in DOMAIN pend
       /\ LET a == pend[Ev.th] IN
          /\ Ev.err = NewErr(Parent(a.p), a.es, K, V)
          /\ NewTS(Ev.h, a.p, a.es, K, V)
          /\ Ev.l = (IF Ev.h = 0 THEN << >> ELSE Joined(Parent(a.p), a.es))
       /\ Ev.same
       /\ pend' = [x \in DOMAIN pend \ {Ev.th} |-> pend[x]] /\ UNCHANGED str /\ Step
Look == IsOp("call", "look") /\ Ev.l = Parent(Ev.h) /\ UNCHANGED tvars /\ Step
TNext == Str \/ Inv \/ Ret \/ Look
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
