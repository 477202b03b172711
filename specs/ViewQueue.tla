------------------------------ MODULE ViewQueue ------------------------------
(* The meter's bounded command queue under load. Callers of Record wait for room  *)
(* in the queue; the worker may be held up by an exporter; Stop answers everybody. *)
(* began/done count the record calls of a row that began and returned before Stop; *)
(* app counts those the worker has aggregated.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Rows
VARIABLES q, app, began, done, busy, st, asks, ans
qvars == <<q, app, began, done, busy, st, asks, ans>>
(* asks: retrievals in progress |-> what was recorded when they began; ans: their answers *)
Zero == [r \in Rows |-> 0]
QInit == /\ q = << >> /\ app = Zero /\ began = Zero /\ done = Zero
         /\ busy = FALSE /\ st = "run" /\ asks = << >> /\ ans = << >>
Room(cap) == Len(q) < cap
BeginRec(r, n) == began' = [began EXCEPT ![r] = @ + n] /\ UNCHANGED <<q, app, done, busy, st, asks, ans>>
SendRec(r, cap) == st # "dead" /\ Room(cap) /\ q' = Append(q, [k |-> "rec", r |-> r]) /\ UNCHANGED <<app, began, done, busy, st, asks, ans>>
RetRec(r, n) == done' = (IF st = "run" THEN [done EXCEPT ![r] = @ + n] ELSE done) /\ UNCHANGED <<q, app, began, busy, st, asks, ans>>
BeginAsk(h) == asks' = (h :> done) @@ asks /\ UNCHANGED <<q, app, began, done, busy, st, ans>>
SendAsk(h, cap) == st # "dead" /\ Room(cap) /\ q' = Append(q, [k |-> "ask", h |-> h]) /\ UNCHANGED <<app, began, done, busy, st, asks, ans>>
Work == /\ st # "dead" /\ ~busy /\ q # << >> /\ q' = Tail(q)
        /\ LET c == Head(q) IN
           IF c.k = "rec" THEN app' = [app EXCEPT ![c.r] = @ + 1] /\ UNCHANGED ans
           ELSE ans' = (c.h :> app) @@ ans /\ UNCHANGED app
        /\ UNCHANGED <<began, done, busy, st, asks>>
ExportBegin == st # "dead" /\ ~busy /\ busy' = TRUE /\ UNCHANGED <<q, app, began, done, st, asks, ans>>
ExportEnd == busy /\ busy' = FALSE /\ UNCHANGED <<q, app, began, done, st, asks, ans>>
StopReq == st = "run" /\ st' = "stopping" /\ UNCHANGED <<q, app, began, done, busy, asks, ans>>
Die == st = "stopping" /\ ~busy /\ st' = "dead" /\ UNCHANGED <<q, app, began, done, busy, asks, ans>>
(* what a snapshot of the rows may be, taken between two instants *)
Between(lo, hi, x) == \A r \in Rows : lo[r] <= x[r] /\ x[r] <= hi[r]
Queued(r) == Cardinality({i \in 1..Len(q) : q[i].k = "rec" /\ q[i].r = r})
=============================================================================
