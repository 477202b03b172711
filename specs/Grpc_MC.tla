------------------------------ MODULE Grpc_MC -------------------------------
(* Chains of RPCs over a network that delivers, drops or corrupts metadata.         *)
(* Beside the RPCs the data of the statistics handler is modelled as the code keeps   *)
(* it: four counters, of which a message changes two, one after the other.              *)
EXTENDS Grpc
CONSTANTS Ids, MaxMsgs, Defs, Opts
VARIABLES data,   \* id -> counters of the code
          busy,   \* messages under way: [id, out, n]
          from,   \* id -> the client RPC whose metadata the server got, 0 none
          recs,   \* what was recorded: sequence of [id, sn, sb, rn, rb]
          msgs
mcv == <<rpc, data, busy, from, recs, msgs>>
MCInit == GInit /\ data = << >> /\ busy = {} /\ from = << >> /\ recs = << >> /\ msgs = 0
Zero == [sn |-> 0, sb |-> 0, rn |-> 0, rb |-> 0]
Forged == [t |-> 50, s |-> 50, smp |-> TRUE]
X(id, c) == [t |-> IF Parent(c) = None THEN 100 + id ELSE Parent(c).t, s |-> 100 + id, smp |-> Sampled(c)]
Cfg0(cl, lo, re, pu, tg) == [client |-> cl, method |-> "m", name |-> "m", remote |-> re, local |-> lo, public |-> pu, def |-> 1, opt |-> 0, tags |-> tg, ptags |-> tg, live |-> FALSE, ff |-> FALSE]
Next1 == CHOOSE i \in Ids : i \notin DOMAIN rpc /\ \A j \in Ids : j < i => j \in DOMAIN rpc
New(c, f) == LET id == Next1 IN /\ Tag(id, c, X(id, c), 0) /\ data' = Put(data, id, Zero) /\ from' = Put(from, id, f) /\ UNCHANGED <<busy, recs, msgs>>
Some == DOMAIN rpc # Ids
(* a client, called from a server's handler or from elsewhere *)
Client == Some /\ \E o \in {0} \cup {i \in DOMAIN rpc : ~rpc[i].c.client}, d \in Defs, p \in Opts, tg \in {<< >>, "u" :> "x"} :
            LET lo == IF o = 0 THEN None ELSE rpc[o].span t == IF o = 0 THEN tg ELSE Tags(rpc[o].c) IN
            New([Cfg0(TRUE, lo, None, FALSE, t) EXCEPT !.def = d, !.opt = p], 0)
(* a server gets the metadata of a client, or none, or forged ones *)
Server == Some /\ \E f \in {0, -1} \cup {i \in DOMAIN rpc : rpc[i].c.client}, d \in Defs, p \in Opts, pu \in BOOLEAN, okt \in BOOLEAN :
            LET re == CASE f = 0 -> None [] f = -1 -> Forged [] OTHER -> rpc[f].span
                tg == IF f > 0 /\ okt THEN rpc[f].c.ptags ELSE << >> IN
            New([Cfg0(FALSE, None, re, pu, tg) EXCEPT !.def = d, !.opt = p], f)
B == \E id \in DOMAIN rpc : ~rpc[id].began /\ Begin(id) /\ UNCHANGED <<data, busy, from, recs, msgs>>
(* a message: first its bytes, then its number are counted *)
M1 == msgs < MaxMsgs /\ msgs' = msgs + 1 /\ \E id \in DOMAIN rpc, out \in BOOLEAN, n \in {0, 3} : rpc[id].st = "run" /\ [id |-> id, out |-> out, n |-> n] \notin busy
        /\ busy' = busy \cup {[id |-> id, out |-> out, n |-> n]}
        /\ data' = [data EXCEPT ![id] = IF out THEN [@ EXCEPT !.sb = @ + n] ELSE [@ EXCEPT !.rb = @ + n]] /\ UNCHANGED <<rpc, from, recs>>
M2 == \E m \in busy : busy' = busy \ {m} /\ Message(m.id, m.out, m.n, m.n)
        /\ data' = [data EXCEPT ![m.id] = IF m.out THEN [@ EXCEPT !.sn = @ + 1] ELSE [@ EXCEPT !.rn = @ + 1]] /\ UNCHANGED <<from, recs, msgs>>
E == \E id \in DOMAIN rpc, k \in {0, 5} : (\A m \in busy : m.id # id) /\ End(id, k, "", 0) /\ recs' = Append(recs, [id |-> id, d |-> data[id]]) /\ UNCHANGED <<data, busy, from, msgs>>
MCNext == Client \/ Server \/ B \/ M1 \/ M2 \/ E
MCSpec == MCInit /\ [][MCNext]_mcv
(* recorded once per ended RPC, its own counts *)
Agree == /\ \A id \in DOMAIN rpc : Cardinality({i \in 1..Len(recs) : recs[i].id = id}) = (IF rpc[id].st = "over" THEN 1 ELSE 0)
         /\ \A i \in 1..Len(recs) : LET r == rpc[recs[i].id] IN recs[i].d = [sn |-> r.sn, sb |-> r.sb, rn |-> r.rn, rb |-> r.rb]
(* one trace along a chain, except over public endpoints and lost metadata; there the link tells *)
Chain == \A id \in DOMAIN rpc : LET r == rpc[id] IN
  /\ ~r.c.client /\ from[id] > 0 => IF r.c.public THEN r.span.t # rpc[from[id]].span.t /\ Links(r.c) = <<[t |-> rpc[from[id]].span.t, s |-> rpc[from[id]].span.s]>>
                                     ELSE r.span.t = rpc[from[id]].span.t /\ Links(r.c) = << >>
  /\ r.c.client /\ r.c.local # None => r.span.t = r.c.local.t
  /\ \A o \in DOMAIN rpc : o # id => rpc[o].span.s # r.span.s
(* the views count every RPC once, whatever the tags *)
RECURSIVE Sum2(_, _)
Sum2(R, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : TRUE IN R[k].n + Sum2(R, D \ {k})
Total == \A cl \in BOOLEAN, ks \in {<<"grpc_client_method", "grpc_client_status">>, <<"u">>, << >>} :
  LET R == Rows(cl, "rb", ks) IN Sum2(R, DOMAIN R) = Cardinality({id \in DOMAIN rpc : rpc[id].c.client = cl /\ rpc[id].st = "over"})
(* a server's tags are the client's, and its method always its own *)
TagsOK == \A id \in DOMAIN rpc : ~rpc[id].c.client => (Tags(rpc[id].c)["grpc_server_method"] = "m" /\ (DOMAIN Tags(rpc[id].c) \ {"grpc_server_method"} \subseteq {"u"}))
Frozen == [][\A id \in DOMAIN rpc : rpc[id].st = "over" => [rpc'[id] EXCEPT !.began = TRUE] = [rpc[id] EXCEPT !.began = TRUE]]_mcv
=============================================================================
