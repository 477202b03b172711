---------------------------- MODULE SpanStore_MC ----------------------------
EXTENDS SpanStore
CONSTANTS Threads, Spans, Names, Codes, MaxNow, Caps
MCBounds == <<1, 2>>
MCNext ==
  \/ now < MaxNow /\ Tick(1)
  \/ Enable(~on)
  \/ \E s \in Spans, n \in Names : (\A q \in Spans : q < s => q \in DOMAIN sp) /\ StartSpan(s, n)
  \/ \E s \in Spans, c \in Codes : s \in DOMAIN sp /\ ~sp[s].ended /\ sp[s].code = 0 /\ c # 0 /\ SetCode(s, c)
  \/ \E t \in Threads, s \in DOMAIN sp : /\ t \notin DOMAIN pend
        /\ pend' = Put(pend, t, [op |-> "end", s |-> s, stage |-> 0, rec |-> 0]) /\ UNCHANGED <<on, now, st, sp>>
  \/ \E t \in Threads : EndSnap(t) \/ EndFile(t)
  \/ \E t \in DOMAIN pend : pend[t].stage = 2 /\ pend' = Del(pend, t) /\ UNCHANGED <<on, now, st, sp>>
  \/ \E n \in Names, a \in Caps : Configure(n, a, a)
MCSpec == RInit /\ [][MCNext]_rvars
=============================================================================
