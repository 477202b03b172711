----------------------------- MODULE HttpClient -----------------------------
(* plugin/ochttp.Transport: requests sent through it. A request is under way       *)
(* until the transport fails, or answers without a body, or the body is read to     *)
(* its end or closed; there its span ends and its statistics are recorded, once.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES req   \* id -> request
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Code(s) == CASE s = 499 -> 1 [] s \in {400, 422} -> 3 [] s = 504 -> 4 [] s = 404 -> 5 [] s = 409 -> 6 [] s = 403 -> 7
             [] s = 429 -> 8 [] s = 501 -> 12 [] s = 503 -> 14 [] s = 401 -> 16 [] s \in 200..399 -> 0 [] OTHER -> 2
CodeName == (0 :> "OK") @@ (1 :> "CANCELLED") @@ (2 :> "UNKNOWN") @@ (3 :> "INVALID_ARGUMENT") @@ (4 :> "DEADLINE_EXCEEDED") @@ (5 :> "NOT_FOUND")
            @@ (6 :> "ALREADY_EXISTS") @@ (7 :> "PERMISSION_DENIED") @@ (8 :> "RESOURCE_EXHAUSTED") @@ (12 :> "UNIMPLEMENTED") @@ (14 :> "UNAVAILABLE")
            @@ (16 :> "UNAUTHENTICATED")
None == [t |-> 0, s |-> 0, smp |-> FALSE]
Decide(x, psmp) == CASE x = 1 -> TRUE [] x = 2 -> FALSE [] OTHER -> psmp
Sampled(c) == IF c.opt # 0 THEN Decide(c.opt, c.local.smp) ELSE IF c.local # None THEN c.local.smp ELSE Decide(c.def, FALSE)
SpanOK(c, x) == /\ IF c.local = None THEN x.t # 0 ELSE x.t = c.local.t
                /\ x.s # 0 /\ x.s # c.local.s /\ x.smp = Sampled(c)
Fresh(c) == [c |-> c, st |-> "begun", span |-> None, status |-> 0, code |-> 0, msg |-> "", bytes |-> 0, clen |-> -1, over |-> FALSE, exp |-> 0, rec |-> 0]
Begin(id, c) == id \notin DOMAIN req /\ req' = Put(req, id, Fresh(c))
(* the base transport gets the request with the span x in its context *)
Sent(id, x) == /\ id \in DOMAIN req /\ req[id].st = "begun"
               /\ IF req[id].c.health THEN x = req[id].c.local ELSE SpanOK(req[id].c, x) /\ \A o \in DOMAIN req : req[o].span = None \/ req[o].span.s # x.s
               /\ req' = [req EXCEPT ![id].st = "sent", ![id].span = x]
(* an error, or a response with status s and the content length n it declares *)
Fail(id, e) == /\ id \in DOMAIN req /\ req[id].st = "sent"
               /\ req' = [req EXCEPT ![id].st = "answered", ![id].status = 500, ![id].code = 2, ![id].msg = e, ![id].clen = -2, ![id].over = TRUE, ![id].exp = IF req[id].span.smp /\ ~req[id].c.health THEN 1 ELSE 0, ![id].rec = 1]
Answer(id, s, n, body) == /\ id \in DOMAIN req /\ req[id].st = "sent"
               /\ req' = [req EXCEPT ![id].st = "answered", ![id].status = s, ![id].code = Code(s), ![id].msg = CodeName[Code(s)], ![id].clen = n,
                          ![id].over = ~body, ![id].exp = IF ~body /\ req[id].span.smp /\ ~req[id].c.health THEN 1 ELSE 0, ![id].rec = IF body THEN 0 ELSE 1]
End1(r) == IF r.over THEN r ELSE [r EXCEPT !.over = TRUE, !.exp = IF r.span.smp /\ ~r.c.health THEN 1 ELSE 0, !.rec = 1]
(* a read of n bytes with end e: "" none, "EOF", or an error *)
Body(id) == id \in DOMAIN req /\ req[id].st = "answered"
(* bytes count while the request is under way *)
Read1(r, n, e) == LET a == IF r.over THEN r ELSE [r EXCEPT !.bytes = @ + n] IN
                  CASE e = "" -> a [] e = "EOF" -> End1(a) [] OTHER -> IF a.over THEN a ELSE [a EXCEPT !.code = 2, !.msg = e]
Read(id, n, e) == Body(id) /\ req' = [req EXCEPT ![id] = Read1(@, n, e)]
Close(id) == Body(id) /\ req' = [req EXCEPT ![id] = End1(@)]
(* --- sizes --- *)
SentBytes(c) == IF c.body /\ c.clen > 0 THEN c.clen ELSE 0
Received(r) == IF r.bytes = 0 /\ r.clen > 0 /\ r.c.method # "HEAD" THEN r.clen ELSE r.bytes
CInit == req = << >>
=============================================================================
