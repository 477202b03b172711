--------------------------- MODULE HttpClient_MC ----------------------------
(* All bounded scripts of transports and callers. Beside the requests the two     *)
(* trackers of the code are modelled: the span's body tracker inside the            *)
(* statistics' one, with their own notion of the end.                                 *)
EXTENDS HttpClient
CONSTANTS Ids, MaxOps, Statuses, Locals
VARIABLES tb,   \* id -> the body tracker of the span: ended, code
          ts,   \* id -> the statistics' tracker: records, size
          ops, later
mcv == <<req, tb, ts, ops, later>>
Ctx(n) == IF n = 0 THEN None ELSE [t |-> n, s |-> n, smp |-> n % 2 = 1]
Cfgs == {[health |-> h, local |-> Ctx(lo), def |-> d, opt |-> o, body |-> b, clen |-> 1, method |-> m] :
          h \in BOOLEAN, lo \in Locals, d \in 1..3, o \in 0..2, b \in BOOLEAN, m \in {"GET", "HEAD"}}
MCInit == CInit /\ tb = << >> /\ ts = << >> /\ ops = 0 /\ later = {}
B == \E id \in Ids, c \in Cfgs : Begin(id, c) /\ tb' = Put(tb, id, [ended |-> 0, code |-> 0]) /\ ts' = Put(ts, id, [recs |-> 0, size |-> 0]) /\ UNCHANGED <<ops, later>>
S == \E id \in DOMAIN req : LET c == req[id].c x == IF c.health THEN c.local ELSE [t |-> IF c.local = None THEN 100 + id ELSE c.local.t, s |-> 100 + id, smp |-> Sampled(c)] IN
       Sent(id, x) /\ UNCHANGED <<tb, ts, ops, later>>
EndT(id, t, code) == Put(t, id, IF t[id].ended = 0 THEN [ended |-> 1, code |-> code] ELSE t[id])
F == \E id \in DOMAIN req : Fail(id, "e") /\ tb' = EndT(id, tb, 2) /\ ts' = [ts EXCEPT ![id].recs = 1] /\ UNCHANGED <<ops, later>>
A == \E id \in DOMAIN req, s \in Statuses, n \in {-1, 0, 5}, b \in BOOLEAN : Answer(id, s, n, b)
       /\ tb' = (IF b THEN Put(tb, id, [ended |-> 0, code |-> Code(s)]) ELSE EndT(id, tb, Code(s))) /\ ts' = [ts EXCEPT ![id].recs = IF b THEN 0 ELSE 1] /\ UNCHANGED <<ops, later>>
R == ops < MaxOps /\ ops' = ops + 1 /\ \E id \in DOMAIN req, n \in {0, 3}, e \in {"", "EOF", "x"} :
       /\ Read(id, n, e) /\ later' = (IF req[id].over THEN later \cup {id} ELSE later)
       (* inner first: the end or the error reaches the span, then the statistics count and end *)
       /\ tb' = (CASE e = "EOF" -> EndT(id, tb, tb[id].code) [] e = "x" /\ tb[id].ended = 0 -> [tb EXCEPT ![id].code = 2] [] OTHER -> tb)
       /\ ts' = (IF ts[id].recs > 0 THEN ts ELSE Put(ts, id, [recs |-> IF e = "EOF" THEN 1 ELSE 0, size |-> ts[id].size + n]))
C == ops < MaxOps /\ ops' = ops + 1 /\ \E id \in DOMAIN req : Close(id) /\ tb' = EndT(id, tb, tb[id].code) /\ ts' = [ts EXCEPT ![id].recs = 1]
       /\ later' = (IF req[id].over THEN later \cup {id} ELSE later)
MCNext == B \/ S \/ F \/ A \/ R \/ C
MCSpec == MCInit /\ [][MCNext]_mcv
Agree == \A id \in DOMAIN req : LET r == req[id] IN r.st = "answered" =>
  /\ (tb[id].ended = 1) = r.over /\ tb[id].code = r.code /\ ts[id].recs = r.rec /\ ts[id].size = r.bytes
  /\ r.exp = (IF r.over /\ r.span.smp /\ ~r.c.health THEN 1 ELSE 0)
  /\ r.bytes > 0 => Received(r) = r.bytes
(* what is over stays as it is *)
Frozen == [][\A id \in DOMAIN req : req[id].over => req'[id] = req[id]]_mcv
Child == \A id \in DOMAIN req : req[id].st \notin {"begun"} /\ ~req[id].c.health /\ req[id].c.local # None => req[id].span.t = req[id].c.local.t
=============================================================================
