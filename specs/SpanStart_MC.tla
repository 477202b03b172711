---------------------------- MODULE SpanStart_MC ----------------------------
(* 2 threads; ApplyConfig in its implementation grain (lock, load, store); up  *)
(* to MaxSpans spans over every context tree, local and remote parents.        *)
EXTENDS SpanStart
CONSTANTS Threads, MaxSpans, MaxApply
VARIABLES lock, napply, done, hb   \* done: completed applies with the set of applies that were complete when they began
mcv == <<svars, lock, napply, done, hb>>
C0 == [samp |-> 1, gen |-> 1, la |-> 1, ln |-> 1, lm |-> 1, ll |-> 1]
Nothing == [f \in Fields |-> 0]
Args == {[Nothing EXCEPT !["samp"] = 2], [Nothing EXCEPT !["la"] = 3], [Nothing EXCEPT !["la"] = 4, !["samp"] = 3]}
MCInit == SInit(C0) /\ lock = 0 /\ napply = 0 /\ done = {} /\ hb = << >>
n == Cardinality(DOMAIN spans)
(* ApplyConfig as the code does it *)
ALock(t) == /\ lock = 0 /\ t \in DOMAIN pend /\ pend[t].op = "apply" /\ ~pend[t].lin /\ "copy" \notin DOMAIN pend[t]
            /\ lock' = t
            /\ pend' = [pend EXCEPT ![t] = [op |-> "apply", arg |-> pend[t].arg, lin |-> FALSE, copy |-> cfg]]
            /\ UNCHANGED <<cfg, spans, ctxs, vals, sids, tids, napply, done, hb>>
AStore(t) == /\ lock = t /\ cfg' = Merge(pend[t].copy, pend[t].arg) /\ lock' = 0
             /\ pend' = [pend EXCEPT ![t].lin = TRUE]
             /\ UNCHANGED <<spans, ctxs, vals, sids, tids, napply, done, hb>>
MCNext ==
  \/ \E t \in Threads : /\ napply < MaxApply /\ 99 \notin DOMAIN ctxs /\ napply' = napply + 1
                        /\ \E a \in Args : InvApply(t, a)
                        /\ hb' = Put(hb, t, done) /\ UNCHANGED <<lock, done>>
  \/ \E t \in Threads : ALock(t) \/ AStore(t)
  \/ \E t \in Threads : RetApply(t) /\ done' = done \cup {[arg |-> pend[t].arg, before |-> hb[t], id |-> Cardinality(done)]} /\ UNCHANGED <<lock, napply, hb>>
  \/ /\ UNCHANGED <<lock, napply, done, hb>>
     /\ \/ \E t \in Threads, c \in DOMAIN ctxs, o \in {0, 9} : n + Cardinality(DOMAIN pend) < MaxSpans /\
             \/ InvStart(t, c, FALSE, NoParent, o)
             \/ InvStart(t, c, TRUE, [tid |-> 90, sid |-> 91, bits |-> 2, samp |-> TRUE, ts |-> 1], o)
             \/ InvStart(t, c, TRUE, NoParent, o)
        \/ \E t \in Threads : LinStart(t)
        \/ \E c \in DOMAIN ctxs : n = 0 /\ Cardinality(DOMAIN ctxs) = 1 /\ pend = << >> /\ napply = 0 /\ With(c, 99, 7)
        \/ \E t \in Threads, ans \in BOOLEAN, tid \in {90, n + 1} \cup tids : RetStart(t, n + 1, n + 1, tid, n + 1, ans, FALSE)
MCSpec == MCInit /\ [][MCNext]_mcv
(* a completed ApplyConfig's field is in force unless a call that did not precede it set that field *)
NoLostApply == (\A t \in DOMAIN pend : pend[t].op # "apply") =>
   \A d \in done, f \in Fields : d.arg[f] > 0 => cfg[f] = d.arg[f] \/
      \E e \in done : e # d /\ e.arg[f] = cfg[f] /\ ~(\E b \in d.before : b = e)
(* what the caller put in a context is in every context derived from it, and in no other *)
KeepsVals == \A c \in DOMAIN ctxs : vals[c] \in {0, 7} /\ (c = 99 => vals[c] = 7)
Untouched == \A f \in {"gen", "ln", "lm", "ll"} : cfg[f] = 1
=============================================================================
