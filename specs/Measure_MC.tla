----------------------------- MODULE Measure_MC ------------------------------
(* The steps of the implementation: making a handle looks the name up and stores it  *)
(* under one lock; recording looks at the subscription flag without it; registering    *)
(* a view sets the flag (under the lock) after the view has been put into the meter.   *)
EXTENDS Measure
CONSTANTS Threads, Names, MaxOps
VARIABLES tab, sub, meter, rows, pc, nops, lo
mcv == <<msvars, tab, sub, meter, rows, pc, nops, lo>>
Idle == [k |-> "idle"]
MCInit == MInit /\ tab = << >> /\ sub = {} /\ meter = {} /\ rows = [n \in Names |-> 0] /\ pc = [t \in Threads |-> Idle] /\ nops = 0 /\ lo = [n \in Names |-> 0]
Set(t, x) == pc' = [pc EXCEPT ![t] = x]
Beg(t, x) == pc[t] = Idle /\ nops < MaxOps /\ nops' = nops + 1 /\ Set(t, x)
Steps(t) ==
  \/ \E n \in Names, d \in {1, 2} : Beg(t, [k |-> "make", n |-> n, d |-> d]) /\ UNCHANGED <<msvars, tab, sub, meter, rows, lo>>
  \/ /\ pc[t].k = "make" /\ Make(pc[t].n, pc[t].d) /\ tab' = (IF pc[t].n \in DOMAIN tab THEN tab ELSE MPut(tab, pc[t].n, pc[t].d))
     /\ Set(t, Idle) /\ UNCHANGED <<sub, meter, rows, nops, lo>>
  \/ \E n \in DOMAIN tab : Beg(t, [k |-> "rec", n |-> n, must |-> n \in views]) /\ RecBegin(n, 1) /\ UNCHANGED <<tab, sub, meter, rows, lo>>
  \/ /\ pc[t].k = "rec" /\ LET n == pc[t].n IN
        /\ rows' = (IF n \in sub /\ n \in meter THEN [rows EXCEPT ![n] = @ + 1] ELSE rows)
        /\ lo' = (IF pc[t].must THEN [lo EXCEPT ![n] = @ + 1] ELSE lo) /\ RecEnd(n, 1)
     /\ Set(t, Idle) /\ UNCHANGED <<tab, sub, meter, nops>>
  \/ \E n \in DOMAIN tab : Beg(t, [k |-> "reg", n |-> n]) /\ UNCHANGED <<msvars, tab, sub, meter, rows, lo>>
  \/ pc[t].k = "reg" /\ meter' = meter \cup {pc[t].n} /\ Set(t, [pc[t] EXCEPT !.k = "sub"]) /\ UNCHANGED <<msvars, tab, sub, rows, nops, lo>>
  \/ pc[t].k = "sub" /\ sub' = sub \cup {pc[t].n} /\ RegView(pc[t].n) /\ Set(t, Idle) /\ UNCHANGED <<tab, meter, rows, nops, lo>>
MCNext == \E t \in Threads : Steps(t)
MCSpec == MCInit /\ [][MCNext]_mcv
Same == tab = desc
Counted == \A n \in Names : lo[n] <= rows[n] /\ rows[n] <= At0(began, n)
FirstWins == [][\A n \in DOMAIN desc : n \in DOMAIN desc' /\ desc'[n] = desc[n]]_mcv
=============================================================================
