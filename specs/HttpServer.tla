----------------------------- MODULE HttpServer -----------------------------
(* plugin/ochttp.Handler: requests served through it, each with the writer the    *)
(* handler gets, the underlying writer (wire) it stands for, one server span and     *)
(* one set of statistics.                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES req   \* id -> request
svars == <<req>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* --- HTTP status to span status --- *)
Code(s) == CASE s = 499 -> 1 [] s \in {400, 422} -> 3 [] s = 504 -> 4 [] s = 404 -> 5 [] s = 409 -> 6 [] s = 403 -> 7
             [] s = 429 -> 8 [] s = 501 -> 12 [] s = 503 -> 14 [] s = 401 -> 16 [] s \in 200..399 -> 0 [] OTHER -> 2
CodeName == (0 :> "OK") @@ (1 :> "CANCELLED") @@ (2 :> "UNKNOWN") @@ (3 :> "INVALID_ARGUMENT") @@ (4 :> "DEADLINE_EXCEEDED") @@ (5 :> "NOT_FOUND")
            @@ (6 :> "ALREADY_EXISTS") @@ (7 :> "PERMISSION_DENIED") @@ (8 :> "RESOURCE_EXHAUSTED") @@ (12 :> "UNIMPLEMENTED") @@ (14 :> "UNAVAILABLE")
            @@ (16 :> "UNAUTHENTICATED")
(* --- span contexts: [t, s, smp]; None --- *)
None == [t |-> 0, s |-> 0, smp |-> FALSE]
(* samplers: 0 not given, 1 always, 2 never, 3 as the parent *)
Decide(x, psmp) == CASE x = 1 -> TRUE [] x = 2 -> FALSE [] OTHER -> psmp
Sampled(def, opt, remote, local) ==
  IF opt # 0 THEN Decide(opt, (remote # None /\ remote.smp) \/ (remote = None /\ local # None /\ local.smp))
  ELSE IF remote # None THEN Decide(def, remote.smp) ELSE IF local # None THEN local.smp ELSE Decide(def, FALSE)
(* what the span continues: the propagated context unless the endpoint is public, or a span of the request's context *)
Remote(c) == IF c.public THEN None ELSE c.remote
Parent(c) == IF Remote(c) # None THEN Remote(c) ELSE c.local
SpanOK(c, x) == /\ IF Parent(c) = None THEN x.t # 0 /\ x.t # c.remote.t ELSE x.t = Parent(c).t
                /\ x.s # 0 /\ x.s \notin {c.remote.s, c.local.s}
                /\ x.smp = Sampled(c.def, c.opt, Remote(c), c.local)
Links(c) == IF c.public /\ c.remote # None THEN <<[t |-> c.remote.t, s |-> c.remote.s, ty |-> 2]>> ELSE << >>
(* --- the wire: the status is that of the first header sent --- *)
Final1(s) == s >= 200 \/ s = 101
Head1(r, s) == IF r.sent # 0 \/ ~Final1(s) THEN r ELSE [r EXCEPT !.sent = s]
Bytes1(r, n) == IF n = 0 THEN r ELSE [r EXCEPT !.amount = @ + n, !.sends = Append(@, n)]
Fresh(c) == [c |-> c, st |-> "begun", span |-> None, sent |-> 0, amount |-> 0, sends |-> << >>, routes |-> {}, last |-> "", pan |-> FALSE, hij |-> FALSE, exp |-> 0]
Begin(id, c) == id \notin DOMAIN req /\ req' = Put(req, id, Fresh(c))
(* the handler runs with span x in its context *)
Enter(id, x) == /\ id \in DOMAIN req /\ req[id].st = "begun"
                /\ IF req[id].c.health THEN x = req[id].c.local ELSE SpanOK(req[id].c, x) /\ \A o \in DOMAIN req : req[o].span = None \/ req[o].span.s # x.s
                /\ req' = [req EXCEPT ![id].st = "run", ![id].span = x]
EnterAny(id, x) == id \in DOMAIN req /\ req[id].st = "begun" /\ req' = [req EXCEPT ![id].st = "run", ![id].span = x]
Run(id) == id \in DOMAIN req /\ req[id].st = "run"
WriteHeader(id, s) == Run(id) /\ req' = [req EXCEPT ![id] = Head1(@, s)]
(* n bytes were taken *)
Write(id, n) == Run(id) /\ req' = [req EXCEPT ![id] = Bytes1(Head1(@, 200), n)]
ReadFrom(id, n) == Run(id) /\ req' = [req EXCEPT ![id] = IF n = 0 THEN @ ELSE Bytes1(Head1(@, 200), n)]
Flush(id) == Run(id) /\ req' = [req EXCEPT ![id] = Head1(@, 200)]
Hijack(id) == Run(id) /\ req' = [req EXCEPT ![id].hij = TRUE]
Other(id) == Run(id) /\ UNCHANGED req
Route(id, x) == id \in DOMAIN req /\ req[id].st \in {"begun", "run"} /\ req' = [req EXCEPT ![id].routes = @ \cup {x}]
(* by SetRoute: the last one counts *)
SetRoute(id, x) == id \in DOMAIN req /\ req[id].st = "run" /\ req' = [req EXCEPT ![id].last = x]
Leave(id, p) == Run(id) /\ req' = [req EXCEPT ![id].st = "left", ![id].pan = p]
(* the span is exported, once, after the handler left *)
Traced(r) == ~r.c.health /\ r.span.smp
(* statuses that may be reported: nothing is known of it when a handler panicked or took the connection over before sending one *)
StatusOK(r, s) == IF r.sent # 0 THEN s = r.sent ELSE (r.pan \/ r.hij) \/ s = 200
Export(id, s) == /\ id \in DOMAIN req /\ req[id].st = "left" /\ Traced(req[id]) /\ req[id].exp = 0 /\ StatusOK(req[id], s)
                 /\ req' = [req EXCEPT ![id].exp = s]
Done(id) == /\ id \in DOMAIN req /\ req[id].st = "left" /\ (Traced(req[id]) <=> req[id].exp # 0)
            /\ req' = [req EXCEPT ![id].st = "done"]
DoneAny(id) == id \in DOMAIN req /\ req[id].st = "left" /\ req' = [req EXCEPT ![id].st = "done"]
(* --- what is recorded: measure -> count and sum, with tags --- *)
ReqSize(c) == IF c.body THEN IF c.clen > 0 THEN c.clen ELSE 0 ELSE -1
RouteOK(r, x) == IF r.routes = {} THEN x = r.last ELSE x \in r.routes \cup ({r.last} \ {""})
SInit == req = << >>
=============================================================================
