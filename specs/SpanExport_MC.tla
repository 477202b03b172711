--------------------------- MODULE SpanExport_MC ----------------------------
(* Exhaustive: 2 threads running any program of Budget calls over 2 spans and  *)
(* 2 exporters, every interleaving of linearization, delivery and return.      *)
EXTENDS SpanExport, TLC
CONSTANTS Threads, Spans, Exps, Budget
VARIABLE left
mcvars == <<vars, left>>
MCInit == /\ Init /\ left = [t \in Threads |-> Budget]
MCNext ==
  \/ \E s \in Spans, b \in BOOLEAN : Start(s, b) /\ UNCHANGED left
  \/ \E t \in Threads : /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
                        /\ \/ \E e \in Exps : Inv(t, "register", e) \/ Inv(t, "unregister", e)
                           \/ \E s \in DOMAIN sampled : Inv(t, "end", s)
  \/ /\ UNCHANGED left
     /\ \/ \E t \in Threads : Lin(t) \/ Ret(t)
        \/ \E s \in Spans, e \in Exps : Deliver(s, e)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(\E t \in Threads : Lin(t) \/ Ret(t))
          /\ WF_mcvars(\E s \in Spans, e \in Exps : Deliver(s, e))
Sym == Permutations(Threads) \cup Permutations(Exps) \cup Permutations(Spans)
=============================================================================
