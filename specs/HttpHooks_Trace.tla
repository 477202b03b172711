-------------------------- MODULE HttpHooks_Trace ---------------------------
(* Binds HttpHooks.tla to recorded requests: hooks called by the driver's transport,   *)
(* or (mode live) by net/http on real connections, where the caller's own hooks tell      *)
(* what was called.                                                                       *)
EXTENDS HttpHooks, TraceKit
VARIABLES after   \* live: request -> hooks called so late that the span may have ended
tvars == <<hk, after>>
Rng(q) == {q[i] : i \in 1..Len(q)}
An(q) == [i \in 1..Len(q) |-> <<q[i].m, {<<x[1], x[2]>> : x \in Rng(q[i].attrs)}>>]
Cs(q) == [i \in 1..Len(q) |-> <<q[i].k, q[i].a>>]
TInit == TraceInit0 /\ KInit /\ after = << >>
BeginE == IsOp("call", "begin") /\ Begin(Ev.id, Ev.on, Ev.health, Ev.smp, Ev.own) /\ after' = Put(after, Ev.id, << >>) /\ Step
(* req: with the caller's request; span: and the span in the request's context *)
MakeE == IsOp("call", "make") /\ Make(Ev.id) /\ Ev.req /\ UNCHANGED after /\ Step
HooksE == IsOp("call", "hooks") /\ Called(Ev.id, Cs(Ev.a), Cs(Ev.b)) /\ UNCHANGED after /\ Step
(* a hook at or after the end of the span *)
LateE == IsOp("call", "late") /\ after' = [after EXCEPT ![Ev.id] = @ \o Cs(Ev.a)] /\ UNCHANGED hk /\ Step
EndE == IsOp("call", "end") /\ End(Ev.id) /\ UNCHANGED after /\ Step
RECURSIVE Bag(_)
Bag(q) == IF q = << >> THEN << >> ELSE LET b == Bag(Tail(q)) IN Put(b, q[1], (IF q[1] \in DOMAIN b THEN b[q[1]] ELSE 0) + 1)
At0(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE q[1][1] \o q[1][2] \o Flat(Tail(q))
(* live: hooks run on several goroutines of net/http *)
LiveShown(id, s) ==
  LET got == Bag(s) sure == Bag(Flat(hk[id].seq)) late == Bag(IF hk[id].on THEN Cat(after[id]) ELSE << >>) IN
  \A x \in DOMAIN got \cup DOMAIN sure : At0(got, x) \in At0(sure, x)..(At0(sure, x) + At0(late, x))
(* exactly one span of the request is exported; made: the hooks were asked for iff they are wanted; own: calls of the caller's own hooks *)
LookE == /\ IsOp("call", "look") /\ Ev.id \in DOMAIN hk
         /\ LET r == hk[Ev.id] IN
            /\ (r.made = 1) = r.on
            /\ (r.own >= 0 /\ ~Ev.live) => Ev.own = r.own
            /\ IF ~r.smp THEN Ev.spans = 0
               ELSE /\ Ev.spans = 1 /\ Ev.span
                    /\ IF Ev.live THEN LiveShown(Ev.id, An(Ev.an)) ELSE Shown(Ev.id, Ev.max, An(Ev.an), Ev.dropped)
         /\ UNCHANGED tvars /\ Step
TNext == BeginE \/ MakeE \/ HooksE \/ LateE \/ EndE \/ LookE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
