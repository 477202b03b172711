----------------------------- MODULE SpanExport -----------------------------
(* C03. Exporter registration (copy-on-write set under exporterMu, read        *)
(* atomically by End) and the export of ended spans.                           *)
(* A call is three steps: Inv (the call begins), a linearization step inside   *)
(* it, Ret (the call returns). Delivery to each exporter is a step of its own, *)
(* between the linearization of the winning End and that End's return.         *)
EXTENDS Naturals, FiniteSets
VARIABLES
  exps,     \* set of registered exporters
  sampled,  \* span -> BOOLEAN, for started spans
  ended,    \* set of spans whose first End took effect
  due,      \* set of <<span, exporter>> that must still be delivered
  got,      \* set of <<span, exporter>> delivered (history; for the properties)
  target,   \* set of <<span, exporter>> registered at the first End (history)
  pend      \* thread -> pending call record

vars == <<exps, sampled, ended, due, got, target, pend>>

Init == /\ exps = {} /\ sampled = << >> /\ ended = {} /\ due = {} /\ got = {} /\ target = {}
        /\ pend = << >>

Idle(t) == t \notin DOMAIN pend
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

Start(s, b) == /\ s \notin DOMAIN sampled
               /\ sampled' = Put(sampled, s, b)
               /\ UNCHANGED <<exps, ended, due, got, target, pend>>

Inv(t, op, arg) ==
  /\ Idle(t)
  /\ pend' = Put(pend, t, [op |-> op, arg |-> arg, lin |-> FALSE, won |-> FALSE])
  /\ UNCHANGED <<exps, sampled, ended, due, got, target>>

(* RegisterExporter / UnregisterExporter take effect (under exporterMu) *)
LinRegister(t) ==
  /\ ~Idle(t) /\ pend[t].op = "register" /\ ~pend[t].lin
  /\ exps' = exps \cup {pend[t].arg}
  /\ pend' = [pend EXCEPT ![t].lin = TRUE]
  /\ UNCHANGED <<sampled, ended, due, got, target>>

LinUnregister(t) ==
  /\ ~Idle(t) /\ pend[t].op = "unregister" /\ ~pend[t].lin
  /\ exps' = exps \ {pend[t].arg}
  /\ pend' = [pend EXCEPT ![t].lin = TRUE]
  /\ UNCHANGED <<sampled, ended, due, got, target>>

(* End: the first one per span claims it and reads the exporter set *)
LinEnd(t) ==
  /\ ~Idle(t) /\ pend[t].op = "end" /\ ~pend[t].lin
  /\ LET s == pend[t].arg IN
     IF s \in ended
     THEN /\ pend' = [pend EXCEPT ![t].lin = TRUE]
          /\ UNCHANGED <<ended, due, target>>
     ELSE /\ ended' = ended \cup {s}
          /\ due' = due \cup (IF sampled[s] THEN {s} \X exps ELSE {})
          /\ target' = target \cup (IF sampled[s] THEN {s} \X exps ELSE {})
          /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].won = TRUE]
  /\ UNCHANGED <<exps, sampled, got>>

Lin(t) == LinRegister(t) \/ LinUnregister(t) \/ LinEnd(t)

Deliver(s, e) ==
  /\ <<s, e>> \in due
  /\ due' = due \ {<<s, e>>}
  /\ got' = got \cup {<<s, e>>}
  /\ UNCHANGED <<exps, sampled, ended, target, pend>>

Ret(t) ==
  /\ ~Idle(t) /\ pend[t].lin
  /\ pend[t].won => \A e \in {d[2] : d \in due} : <<pend[t].arg, e>> \notin due
  /\ pend' = Del(pend, t)
  /\ UNCHANGED <<exps, sampled, ended, due, got, target>>

(* ---- properties ---- *)
OnlyTargets   == got \subseteq target
NothingLost   == target \subseteq (got \cup due)
NotTwice      == got \cap due = {}
OnlyEnded     == \A d \in target : d[1] \in ended /\ sampled[d[1]]
SettledAfterReturn == \* an ended span with no pending winner has been delivered everywhere
  \A d \in due : \E t \in DOMAIN pend : pend[t].op = "end" /\ pend[t].arg = d[1] /\ pend[t].won
ExportInv == OnlyTargets /\ NothingLost /\ NotTwice /\ OnlyEnded /\ SettledAfterReturn
NoSecondEnd == [][\A d \in target' \ target : d[1] \notin ended]_vars
=============================================================================
