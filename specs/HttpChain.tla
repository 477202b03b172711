------------------------------ MODULE HttpChain ------------------------------
(* Traces across services: requests sent through ochttp.Transport and served by      *)
(* ochttp.Handler, each of whose handlers may send further requests. A span is known   *)
(* by its holder: "l3" a span begun by the program, "c5" and "s5" the client and the    *)
(* server span of request 5 ("s5.2": of its second arrival); "" is no span.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES node,   \* holder -> its span
          req     \* request -> what is known of it
hvars == <<node, req>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoSC == [t |-> 0, s |-> 0, smp |-> FALSE, ts |-> 0]
SC(h) == IF h \in DOMAIN node THEN node[h].sc ELSE NoSC
Decide(x, psmp) == CASE x = 1 -> TRUE [] x = 2 -> FALSE [] OTHER -> psmp
(* the decision for a local child, for the child of a remote parent, for a root *)
LocalSmp(def, opt, p) == IF p = NoSC THEN Decide(IF opt = 0 THEN def ELSE opt, FALSE) ELSE IF opt = 0 THEN p.smp ELSE Decide(opt, p.smp)
RemoteSmp(def, opt, p) == Decide(IF opt = 0 THEN def ELSE opt, p.smp)
FreshSpan(x) == x.s # 0 /\ \A h \in DOMAIN node : node[h].sc.s # x.s
FreshTrace(x) == x.t # 0 /\ \A h \in DOMAIN node : node[h].sc.t # x.t
(* x may be a new span below p *)
Below(x, p) == FreshSpan(x) /\ x.s # p.s /\ (IF p = NoSC THEN FreshTrace(x) /\ x.ts = 0 ELSE x.t = p.t /\ x.ts = p.ts)
Node(x, p, rem, link, kind, name) == [sc |-> x, p |-> p.s, rem |-> rem, link |-> link, kind |-> kind, name |-> name]
HInit == node = << >> /\ req = << >>
Local(h, by, def, opt, name, x) ==
  /\ h \notin DOMAIN node /\ Below(x, SC(by)) /\ x.smp = LocalSmp(def, opt, SC(by))
  /\ node' = Put(node, h, Node(x, SC(by), FALSE, NoSC, 0, name)) /\ UNCHANGED req
(* c: health (client, server), match: the formats are the same, fmt, opt (client, server), public *)
Send(q, by, c) == /\ q \notin DOMAIN req
                  /\ req' = Put(req, q, [c |-> c, by |-> by, st |-> "sent", car |-> NoSC, n |-> 0]) /\ UNCHANGED node
(* what the headers say to the server *)
Carry(c, x) == IF ~c.match \/ x.s = 0 THEN NoSC ELSE [x EXCEPT !.ts = IF c.fmt = "tc" THEN @ ELSE 0]
(* the request leaves the transport, with the span x in its context *)
Wire(q, h, def, x) ==
  /\ q \in DOMAIN req /\ req[q].st = "sent"
  /\ LET r == req[q] p == SC(r.by) IN
     IF r.c.health THEN x = p /\ req' = [req EXCEPT ![q].st = "wire"] /\ UNCHANGED node
     ELSE /\ Below(x, p) /\ x.smp = LocalSmp(def, r.c.copt, p)
          /\ node' = Put(node, h, Node(x, p, FALSE, NoSC, 2, r.c.name))
          /\ req' = [req EXCEPT ![q].st = "wire", ![q].car = Carry(r.c, x)]
(* a request of another program, with x in its headers *)
Ext(q, c, x) == /\ q \notin DOMAIN req
                /\ req' = Put(req, q, [c |-> c, by |-> "", st |-> "wire", car |-> Carry(c, x), n |-> 0]) /\ UNCHANGED node
(* the handler of the request runs, with the span x in its context *)
Arrive(q, h, def, x) ==
  /\ q \in DOMAIN req /\ req[q].st = "wire" /\ h \notin DOMAIN node
  /\ LET r == req[q] p == IF r.c.public THEN NoSC ELSE r.car IN
     IF r.c.shealth THEN x = NoSC /\ UNCHANGED node
     ELSE /\ Below(x, p) /\ x.t # (IF r.c.public THEN r.car.t ELSE 0)
          /\ x.smp = RemoteSmp(def, r.c.sopt, p)
          /\ node' = Put(node, h, Node(x, p, p # NoSC, IF r.c.public THEN r.car ELSE NoSC, 1, r.c.name))
  /\ req' = [req EXCEPT ![q].n = @ + 1]
(* the sender gets the answer of the handler of q *)
Reply(q, of) == q \in DOMAIN req /\ req[q].n > 0 /\ of = q /\ req' = [req EXCEPT ![q].st = "done"] /\ UNCHANGED node
(* or the connection breaks, which a program may do on purpose *)
Broken(q) == q \in DOMAIN req /\ req[q].c.abort /\ req' = [req EXCEPT ![q].st = "done"] /\ UNCHANGED node
Sampled == {h \in DOMAIN node : node[h].sc.smp}
=============================================================================
