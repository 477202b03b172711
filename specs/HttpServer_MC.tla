--------------------------- MODULE HttpServer_MC ----------------------------
(* All handler programs of bounded length over the writer. The statistics writer  *)
(* (trk) is modelled beside the wire: it sees each call on its way and keeps its     *)
(* own status and size, from which the span and the statistics are made.              *)
EXTENDS HttpServer
CONSTANTS MaxOps, Statuses, Ids, Remotes, Locals
VARIABLES trk, ops, out
mcv == <<req, trk, ops, out>>
Ctx(n) == IF n = 0 THEN None ELSE [t |-> n, s |-> n, smp |-> n % 2 = 1]
Cfgs == {[health |-> h, public |-> p, remote |-> Ctx(r), local |-> Ctx(lo), def |-> d, opt |-> o, body |-> TRUE, clen |-> 1] :
          h \in BOOLEAN, p \in BOOLEAN, r \in Remotes, lo \in Locals, d \in 1..3, o \in 0..2}
MCInit == SInit /\ trk = << >> /\ ops = 0 /\ out = << >>
T(id, f) == trk' = Put(trk, id, f)
(* the tracker as the code has it: status 0 until something final is sent *)
TS(t, s) == IF t.status # 0 \/ (s < 200 /\ s # 101) THEN t ELSE [t EXCEPT !.status = s]
TW(t, n) == [t EXCEPT !.size = @ + n]
Tick == ops < MaxOps /\ ops' = ops + 1
B == \E id \in Ids, c \in Cfgs : (c.health => c.local = None) /\ Begin(id, c) /\ T(id, [status |-> 0, size |-> 0, ended |-> 0]) /\ UNCHANGED <<ops, out>>
E == \E id \in DOMAIN req : /\ req[id].st = "begun"
       /\ LET c == req[id].c x == IF c.health THEN c.local ELSE
              [t |-> IF Parent(c) = None THEN 100 + id ELSE Parent(c).t, s |-> 100 + id, smp |-> Sampled(c.def, c.opt, Remote(c), c.local)] IN Enter(id, x)
       /\ UNCHANGED <<trk, ops, out>>
O == \E id \in DOMAIN req : Tick /\ UNCHANGED out /\
       \/ \E s \in Statuses : WriteHeader(id, s) /\ T(id, TS(trk[id], s))
       \/ \E n \in {0, 2} : Write(id, n) /\ T(id, TW(TS(trk[id], 200), n))
       \/ \E n \in {0, 3} : ReadFrom(id, n) /\ T(id, TW(IF n > 0 THEN TS(trk[id], 200) ELSE trk[id], n))
       \/ Flush(id) /\ T(id, TS(trk[id], 200))
       \/ Hijack(id) /\ UNCHANGED trk
       \/ Route(id, "r") /\ UNCHANGED trk
       \/ \E x \in {"s", "t"} : SetRoute(id, x) /\ UNCHANGED trk
L == \E id \in DOMAIN req, p \in BOOLEAN : Leave(id, p) /\ UNCHANGED <<trk, ops, out>>
(* the end records statistics, then the span ends *)
Rep(t) == IF t.status = 0 THEN 200 ELSE t.status
S == \E id \in DOMAIN req : req[id].st = "left" /\ trk[id].ended = 0 /\ T(id, [trk[id] EXCEPT !.ended = 1])
       /\ out' = Append(out, [id |-> id, status |-> Rep(trk[id]), size |-> trk[id].size]) /\ UNCHANGED <<req, ops>>
X == \E id \in DOMAIN req : trk[id].ended = 1 /\ (Export(id, Rep(trk[id])) \/ Done(id)) /\ UNCHANGED <<trk, ops, out>>
MCNext == B \/ E \/ O \/ L \/ S \/ X
MCSpec == MCInit /\ [][MCNext]_mcv /\ WF_mcv(E) /\ WF_mcv(L) /\ WF_mcv(S) /\ WF_mcv(X)
(* the tracker knows what went over the wire *)
Knows == \A id \in DOMAIN req : trk[id].status = req[id].sent /\ trk[id].size = req[id].amount
Once == \A id \in DOMAIN req : Cardinality({i \in 1..Len(out) : out[i].id = id}) = (IF trk[id].ended = 1 THEN 1 ELSE 0)
Faithful == \A i \in 1..Len(out) : LET r == req[out[i].id] IN StatusOK(r, out[i].status) /\ out[i].size = r.amount
(* traces: continued for trusted callers, separate for public endpoints *)
Linked == \A id \in DOMAIN req : LET r == req[id] IN (r.st # "begun" /\ ~r.c.health) =>
  /\ (r.c.remote # None /\ ~r.c.public) => (r.span.t = r.c.remote.t /\ Links(r.c) = << >>)
  /\ (r.c.remote # None /\ r.c.public /\ r.c.local = None) => (r.span.t # r.c.remote.t /\ Len(Links(r.c)) = 1)
Ends == \A id \in DOMAIN req : (req[id].st = "done") => (Traced(req[id]) <=> req[id].exp # 0)
AllDone == <>[](\A id \in DOMAIN req : req[id].st = "done")
=============================================================================
