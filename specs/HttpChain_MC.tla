---------------------------- MODULE HttpChain_MC -----------------------------
(* Any bounded web of requests: programs and handlers send requests, under any        *)
(* span, to endpoints of any kind.                                                       *)
EXTENDS HttpChain
CONSTANTS Reqs, Locals, Defs, Opts
VARIABLES next
mcv == <<node, req, next>>
Name(k, i) == k \o ToString(i)
MCInit == HInit /\ next = 1
Cfgs == {[health |-> h, shealth |-> h, match |-> m, fmt |-> f, copt |-> c, sopt |-> s, public |-> p, abort |-> FALSE, name |-> "n"] :
          h \in BOOLEAN, m \in BOOLEAN, f \in {"b3", "tc"}, c \in Opts, s \in Opts, p \in BOOLEAN}
Holders == {""} \cup {h \in DOMAIN node : node[h].kind # 2}
New(p, smp) == [t |-> IF p = NoSC THEN next ELSE p.t, s |-> next, smp |-> smp, ts |-> p.ts]
L == \E i \in Locals, by \in Holders, d \in Defs, o \in Opts :
       Local(Name("l", i), by, d, o, "n", New(SC(by), LocalSmp(d, o, SC(by)))) /\ next' = next + 1
S == \E q \in Reqs, by \in Holders, c \in Cfgs : (c.health => c.match /\ c.copt = 0 /\ c.sopt = 0 /\ ~c.public) /\ Send(q, by, c) /\ UNCHANGED next
W == \E q \in DOMAIN req, d \in Defs : LET p == SC(req[q].by) IN
       Wire(q, Name("c", q), d, IF req[q].c.health THEN p ELSE New(p, LocalSmp(d, req[q].c.copt, p))) /\ next' = next + 1
E == \E q \in Reqs, c \in Cfgs, b \in BOOLEAN : c.copt = 0 /\ ~c.health /\ Ext(q, c, [t |-> 100, s |-> 100 + q, smp |-> b, ts |-> 7]) /\ UNCHANGED next
A == \E q \in DOMAIN req, d \in Defs : LET r == req[q] p == IF r.c.public THEN NoSC ELSE r.car IN
       r.n = 0 /\ Arrive(q, Name("s", q), d, IF r.c.shealth THEN NoSC ELSE New(p, RemoteSmp(d, r.c.sopt, p))) /\ next' = next + 1
R == \E q \in DOMAIN req : req[q].st = "wire" /\ Reply(q, q) /\ UNCHANGED next
MCNext == L \/ S \/ W \/ E \/ A \/ R
MCSpec == MCInit /\ [][MCNext]_mcv
(* every request's two spans are linked in one of the ways the endpoints say *)
Linked == \A q \in DOMAIN req : Name("s", q) \in DOMAIN node =>
  LET s == node[Name("s", q)] r == req[q] IN
  IF Name("c", q) \in DOMAIN node
  THEN LET c == node[Name("c", q)] IN
       /\ c.p = SC(r.by).s /\ (r.by # "" /\ SC(r.by).s # 0 => c.sc.t = SC(r.by).t)
       /\ (r.c.match /\ ~r.c.public) => (s.p = c.sc.s /\ s.sc.t = c.sc.t /\ s.rem /\ s.link = NoSC)
       /\ (r.c.match /\ r.c.public) => (s.p = 0 /\ s.sc.t # c.sc.t /\ s.link.s = c.sc.s /\ s.link.t = c.sc.t)
       /\ ~r.c.match => (s.p = 0 /\ s.sc.t # c.sc.t /\ s.link = NoSC)
  ELSE TRUE
(* a trace is a tree with one root: following parents stays in the trace and ends at a span without parent or with one from outside *)
ByS(s) == {h \in DOMAIN node : node[h].sc.s = s}
RECURSIVE Root(_, _)
Root(h, k) == IF k = 0 THEN "loop" ELSE IF node[h].p = 0 \/ node[h].p > 100 THEN h ELSE Root(CHOOSE x \in ByS(node[h].p) : TRUE, k - 1)
Tree == \A h \in DOMAIN node : LET r == Root(h, Cardinality(DOMAIN node)) IN r # "loop" /\ node[r].sc.t = node[h].sc.t
OneRoot == \A g, h \in DOMAIN node : (node[g].p = 0 /\ node[h].p = 0 /\ g # h) => node[g].sc.t # node[h].sc.t
(* without other samplers the decision of the root holds for the whole trace *)
OneDecision == (Opts = {0} /\ Defs = {3}) => \A g, h \in DOMAIN node : (node[g].p = node[h].p /\ node[g].p > 0) => node[g].sc.smp = node[h].sc.smp
(* the state of a trace travels only in the format that has it *)
State == \A h \in DOMAIN node : node[h].sc.ts # 0 => node[h].p # 0
=============================================================================
