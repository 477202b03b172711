---------------------------- MODULE SpanStory ------------------------------
(* C37. What the TraceZ page tells about each span it lists: SpanContent.tla's *)
(* record of the span, with the times of everything, laid out as lines.        *)
EXTENDS SpanContent, Integers
VARIABLE clock   \* seconds and nanoseconds since a midnight
yvars == <<cvars, clock>>

MaxText == 1024
YInit == CInit /\ clock = [s |-> 0, n |-> 0]
Pass(s, n) == LET m == clock.n + n IN
              clock' = IF m >= 1000000000 THEN [s |-> clock.s + s + 1, n |-> m - 1000000000] ELSE [s |-> clock.s + s, n |-> m]
Passes(s, n) == Pass(s, n) /\ UNCHANGED cvars

(* x: content and, of the span itself, its IDs, parent (or "") and sampled bit *)
Begin(s, x) == Start(s, [x EXCEPT !.t0 = clock]) /\ UNCHANGED clock
Does(s, o)  == /\ s \in DOMAIN live
               /\ live' = IF s \in DOMAIN final THEN live ELSE [live EXCEPT ![s] = Apply(@, o)]
               /\ UNCHANGED <<final, pend, clock>>
EndOf(s)    == /\ s \in DOMAIN live /\ UNCHANGED <<live, pend, clock>>
               /\ final' = IF s \in DOMAIN final THEN final ELSE Put(final, s, [live[s] EXCEPT !.t1 = <<clock>>])

(* ---------------------------------------------------------------- layout *)
Less(a, b) == a.s < b.s \/ (a.s = b.s /\ a.n < b.n)
Diff(a, b) == IF a.n >= b.n THEN [s |-> a.s - b.s, n |-> a.n - b.n] ELSE [s |-> a.s - b.s - 1, n |-> a.n + 1000000000 - b.n]
(* a span of time in seconds and microseconds; a long one in seconds only *)
Elapsed(a, b) == LET d == Diff(a, b) IN IF d.s >= 100000 THEN <<d.s, -1>> ELSE <<d.s, d.n \div 1000>>
Day(t)  == t.s \div 86400
Time(t) == <<t.s % 86400, t.n \div 1000>>
CodeNames == <<"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
               "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE",
               "DATA_LOSS", "UNAUTHENTICATED">>
CodeName(c) == IF c >= 0 /\ c < Len(CodeNames) THEN CodeNames[c + 1] ELSE "error code " \o ToString(c)

ByKey(kvs) == SortSeq(kvs, LAMBDA a, b : a[1] < b[1])
(* texts are named; len: the length of a long one *)
Cut(e) == IF e.len > MaxText THEN [e EXCEPT !.len = MaxText, !.kvs = << >>] ELSE [e EXCEPT !.kvs = ByKey(@)]
(* the events in the order of their times, which is all that orders them *)
Events(x) == [i \in 1..Len(x.N.q) |-> [t |-> x.N.q[i].t, b |-> Cut(x.N.q[i].b)]] \o x.M.q
InTime(es) == SortSeq(es, LAMBDA a, b : Less(a.t, b.t))
Count(f, n, v) == Cardinality({i \in 1..n : f[i] = v})

(* sh: a shown span; x: what is to be shown *)
HeadOK(sh, x) ==
  /\ sh.tid = x.tid /\ sh.sid = x.sid /\ sh.par = x.par
  /\ sh.col \in {"", IF x.samp THEN "blue" ELSE "black"}
  /\ sh.day = Day(x.t0) /\ sh.time = Time(x.t0)
  /\ sh.dur = IF x.t1 = << >> THEN << >> ELSE Elapsed(x.t1[1], x.t0)
StatusOK(sh, x) == sh.status = IF x.code = 0 /\ x.smsg = "" THEN << >> ELSE <<CodeName(x.code), x.smsg>>
AttrsOK(sh, x)  == sh.attrs = ByKey(x.A.q)
EventsOK(sh, x) ==
  LET es == InTime(Events(x)) n == Len(es)
      before(i) == IF i = 1 THEN x.t0 ELSE es[i-1].t
      mine == [i \in 1..n |-> <<es[i].t, es[i].b>>]
      seen == [i \in 1..n |-> <<es[i].t, sh.events[i].b>>] IN
  /\ Len(sh.events) = n
  /\ \A i \in 1..n : LET e == sh.events[i] IN
       /\ e.day = IF Day(es[i].t) = Day(before(i)) THEN -1 ELSE Day(es[i].t)
       /\ e.time = Time(es[i].t)
       /\ e.el = Elapsed(es[i].t, before(i))
       /\ Count(seen, n, mine[i]) = Count(mine, n, mine[i])
StoryOK(sh, x) == HeadOK(sh, x) /\ StatusOK(sh, x) /\ AttrsOK(sh, x) /\ EventsOK(sh, x)
Now(s) == IF s \in DOMAIN final THEN final[s] ELSE live[s]
=============================================================================
