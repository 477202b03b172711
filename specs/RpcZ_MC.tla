------------------------------- MODULE RpcZ_MC -------------------------------
(* RPCs end, the views collect cumulative rows, and deliveries of single views    *)
(* happen at any time: after a delivery of every view the page equals the true      *)
(* totals, and at any time each figure is one that was true at its last delivery.   *)
EXTENDS RpcZ
CONSTANTS MaxRPC, MaxNow, Meths, Stats
VARIABLES rpcs,  \* RPCs that ended
          seen   \* view -> how many of them its last delivery covered
mcv == <<zvars, rpcs, seen>>
D == 1
MCInit == ZInit /\ rpcs = << >> /\ seen = [v \in Views |-> 0]
EndRPC == Len(rpcs) < MaxRPC /\ \E m \in Meths, st \in Stats, b \in {0, 3} : rpcs' = Append(rpcs, [m |-> m, st |-> st, b |-> b, l |-> 2]) /\ UNCHANGED <<zvars, seen>>
Of(n, m, st) == {i \in 1..n : rpcs[i].m = m /\ (st = -1 \/ rpcs[i].st = st)}
RowOf(n, m, st, f(_)) == [m |-> m, st |-> IF st = -1 THEN 0 ELSE st, n |-> Cardinality(Of(n, m, st)), s |-> SumOf([i \in Of(n, m, st) |-> f(rpcs[i])])]
Seq2(S) == IF S = {} THEN << >> ELSE CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
RowsOf(n, v) ==
  LET f(x) == CASE v = "latency" -> x.l [] v = "completed" -> 1 [] OTHER -> x.b
      ks == IF v = "completed" THEN {<<rpcs[i].m, rpcs[i].st>> : i \in 1..n} ELSE {<<rpcs[i].m, -1>> : i \in 1..n}
      q == Seq2(ks) IN [i \in 1..Len(q) |-> RowOf(n, q[i][1], q[i][2], f)]
Del1 == \E v \in Views : now > 0 /\ Deliver(D, v, RowsOf(Len(rpcs), v)) /\ seen' = [seen EXCEPT ![v] = Len(rpcs)] /\ UNCHANGED rpcs
Tick1 == now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<rpcs, seen>>
MCNext == EndRPC \/ Del1 \/ Tick1
MCSpec == MCInit /\ [][MCNext]_mcv
True1(n, m) == Cardinality(Of(n, m, -1))
Faithful == \A m \in Methods(D) : LET s == snap[<<D, m>>] IN
  /\ s.cnt = True1(seen["sentmsgs"], m)
  /\ s.err = Cardinality({i \in 1..seen["completed"] : rpcs[i].m = m /\ rpcs[i].st > 1})
  /\ s.out = SumOf([i \in Of(seen["sent"], m, -1) |-> rpcs[i].b]) /\ s.inp = SumOf([i \in Of(seen["received"], m, -1) |-> rpcs[i].b])
  /\ s.lcnt = True1(seen["latency"], m) /\ s.lsum = 2 * s.lcnt
Complete == \A m \in {rpcs[i].m : i \in 1..Len(rpcs)} : (\E v \in Views \ {"other"} : \E i \in 1..seen[v] : rpcs[i].m = m) <=> m \in Methods(D)
=============================================================================
