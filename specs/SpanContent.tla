---------------------------- MODULE SpanContent -----------------------------
(* C04. What a span records: name, status, an LRU map of attributes, and three *)
(* bounded FIFO queues; End takes the one snapshot that is delivered.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  live,    \* span -> recorded content so far
  final,   \* span -> content snapshot taken by the first End
  pend     \* thread -> pending call
cvars == <<live, final, pend>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

(* ------------------------------------------------------------ containers *)
NewQ(cap) == [q |-> << >>, cap |-> cap, drop |-> 0]
AddQ(Q, v) == IF Len(Q.q) = Q.cap THEN [Q EXCEPT !.q = Append(Tail(@), v), !.drop = @ + 1]
              ELSE [Q EXCEPT !.q = Append(@, v)]
(* attributes: most recently set first *)
Without(q, k) == SelectSeq(q, LAMBDA e : e[1] # k)
SetA(A, k, v) == LET q == <<<<k, v>>>> \o Without(A.q, k) IN
                 IF Len(q) > A.cap THEN [A EXCEPT !.q = SubSeq(q, 1, A.cap), !.drop = @ + 1]
                 ELSE [A EXCEPT !.q = q]
RECURSIVE SetAll(_, _)
SetAll(A, kvs) == IF kvs = << >> THEN A ELSE SetAll(SetA(A, Head(kvs)[1], Head(kvs)[2]), Tail(kvs))

New(name, kind, la, ln, lm, ll) ==
  [name |-> name, kind |-> kind, code |-> 0, smsg |-> "", child |-> 0,
   A |-> NewQ(la), N |-> NewQ(ln), M |-> NewQ(lm), L |-> NewQ(ll)]

(* ------------------------------------------------------------ the recording calls *)
Apply(s, o) ==
  CASE o.op = "setname"   -> [s EXCEPT !.name = o.name]
    [] o.op = "setstatus" -> [s EXCEPT !.code = o.code, !.smsg = o.smsg]
    [] o.op = "attrs"     -> [s EXCEPT !.A = SetAll(@, o.kvs)]
    [] o.op = "annotate"  -> [s EXCEPT !.N = AddQ(@, o.v)]
    [] o.op = "message"   -> [s EXCEPT !.M = AddQ(@, o.v)]
    [] o.op = "link"      -> [s EXCEPT !.L = AddQ(@, o.v)]
    [] o.op = "child"     -> [s EXCEPT !.child = @ + 1]
    [] OTHER -> s

CInit == live = << >> /\ final = << >> /\ pend = << >>
Start(s, c) == s \notin DOMAIN live /\ live' = Put(live, s, c) /\ UNCHANGED <<final, pend>>
Inv(t, s, o) == /\ t \notin DOMAIN pend /\ s \in DOMAIN live
                /\ pend' = Put(pend, t, [s |-> s, o |-> o, lin |-> FALSE, seen |-> 0])
                /\ UNCHANGED <<live, final>>
Pending(t) == t \in DOMAIN pend /\ ~pend[t].lin
LinRecord(t) == /\ Pending(t) /\ pend[t].o.op \notin {"end", "observe"}
                /\ live' = [live EXCEPT ![pend[t].s] = Apply(@, pend[t].o)]
                /\ pend' = [pend EXCEPT ![t].lin = TRUE]
                /\ UNCHANGED final
LinEnd(t) == /\ Pending(t) /\ pend[t].o.op = "end"
             /\ pend' = [pend EXCEPT ![t].lin = TRUE]
             /\ final' = IF pend[t].s \in DOMAIN final THEN final ELSE Put(final, pend[t].s, live[pend[t].s])
             /\ UNCHANGED live
(* observation of a live span: changes nothing *)
LinObserve(t) == /\ Pending(t) /\ pend[t].o.op = "observe"
                 /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].seen = live[pend[t].s]]
                 /\ UNCHANGED <<live, final>>
Lin(t) == LinRecord(t) \/ LinEnd(t) \/ LinObserve(t)
Ret(t) == t \in DOMAIN pend /\ pend[t].lin /\ pend' = Del(pend, t) /\ UNCHANGED <<live, final>>

(* ------------------------------------------------------------ properties *)
Bounded == \A s \in DOMAIN live : \A f \in {"A", "N", "M", "L"} : Len(live[s][f].q) <= live[s][f].cap
DistinctKeys == \A s \in DOMAIN live : LET q == live[s].A.q IN \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1]
DropsOnlyWhenFull == \A s \in DOMAIN live : \A f \in {"A", "N", "M", "L"} : live[s][f].drop > 0 => Len(live[s][f].q) = live[s][f].cap
ContentInv == Bounded /\ DistinctKeys /\ DropsOnlyWhenFull
FinalFrozen == [][\A s \in DOMAIN final : final'[s] = final[s]]_cvars
=============================================================================
