--------------------------- MODULE ViewFlood_Trace ---------------------------
(* Many identical record calls while exporters hold the worker up. Bursts are one  *)
(* event; every snapshot must lie between what returned before it was asked for   *)
(* (and every earlier snapshot) and what had begun when it came (ViewQueue.tla).  *)
EXTENDS Integers, TraceKit
VARIABLES cl, vw, began, done, floor, pend, stopped
fvars == <<cl, vw, began, done, floor, pend, stopped>>
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b
RngOf(q) == {q[i] : i \in 1..Len(q)}
TInit == TraceInit0 /\ cl = << >> /\ vw = << >> /\ began = << >> /\ done = << >> /\ floor = << >> /\ pend = << >> /\ stopped = FALSE
Setup == /\ IsOp("call", "setup") /\ cl' = Ev.cl /\ vw' = [n \in {v.n : v \in RngOf(Ev.views)} |-> CHOOSE v \in RngOf(Ev.views) : v.n = n]
         /\ began' = [c \in DOMAIN Ev.cl |-> 0] /\ done' = began'
         /\ floor' = [n \in DOMAIN vw' |-> began'] /\ UNCHANGED <<pend, stopped>> /\ Step
Inv == /\ Is("inv") /\ pend' = Put(pend, Ev.th, [a |-> Ev, lo |-> IF Ev.op = "retrieve" THEN [c \in DOMAIN cl |-> Max(done[c], floor[Ev.n][c])] ELSE << >>])
       /\ began' = IF Ev.op = "burst" THEN [began EXCEPT ![Ev.c] = @ + Ev.k] ELSE began
       /\ stopped' = (stopped \/ Ev.op = "stop") /\ UNCHANGED <<cl, vw, done, floor>> /\ Step
Bucket(b, v) == 1 + Cardinality({i \in 1..Len(b) : b[i] <= v})
(* the number of records an aggregate holds; -1: it is none that k records of value v make *)
CountOf(d, v, def) ==
  CASE d.ty = "count" /\ def.agg = "count" -> d.n
    [] d.ty = "sum" /\ def.agg = "sum" -> IF d.s % v = 0 THEN d.s \div v ELSE -1
    [] d.ty = "last" /\ def.agg = "last" -> IF d.v = v THEN 1 ELSE -1
    [] d.ty = "dist" /\ def.agg = "dist" ->
         IF d.s = d.n * v /\ d.mn = v /\ d.mx = v /\ d.q = 0 /\ Len(d.b) = Len(def.b) + 1
            /\ \A i \in 1..Len(d.b) : d.b[i] = IF i = Bucket(def.b, v) THEN d.n ELSE 0
         THEN d.n ELSE -1
    [] OTHER -> -1
RowOf(rows, c) == {r \in RngOf(rows) : r.tags = << <<1, cl[c].tv>> >>}
Got(rows, c, def) == LET s == RowOf(rows, c) IN
  IF s = {} THEN 0 ELSE IF Cardinality(s) > 1 THEN -1 ELSE CountOf((CHOOSE r \in s : TRUE).d, cl[c].v, def)
Mine(def) == {c \in DOMAIN cl : cl[c].m = def.m}
Snap(n, rows, lo) ==   \* a snapshot of view n
  LET def == vw[n] x == [c \in DOMAIN cl |-> Got(rows, c, def)] IN
  /\ Len(rows) = Cardinality({c \in DOMAIN cl : x[c] # 0})
  /\ \A c \in DOMAIN cl : IF c \in Mine(def) THEN IF def.agg = "last" THEN x[c] >= 0 /\ (lo[c] > 0 => x[c] = 1) /\ x[c] <= began[c]
                                                  ELSE lo[c] <= x[c] /\ x[c] <= began[c] ELSE x[c] = 0
Up(n, rows) == [c \in DOMAIN cl |-> Max(floor[n][c], Got(rows, c, vw[n]))]
Ret == /\ Is("ret") /\ Ev.th \in DOMAIN pend /\ pend' = Del(pend, Ev.th)
       /\ done' = IF Ev.op = "burst" /\ ~stopped THEN [done EXCEPT ![pend[Ev.th].a.c] = @ + pend[Ev.th].a.k] ELSE done
       /\ IF Ev.op = "retrieve" /\ Ev.err THEN stopped /\ UNCHANGED floor
          ELSE IF Ev.op = "retrieve" THEN LET n == pend[Ev.th].a.n IN Snap(n, Ev.rows, pend[Ev.th].lo) /\ floor' = [floor EXCEPT ![n] = Up(n, Ev.rows)]
          ELSE UNCHANGED floor
       /\ UNCHANGED <<cl, vw, began, stopped>> /\ Step
Export == /\ Is("exp") /\ Ev.v \in DOMAIN vw /\ Snap(Ev.v, Ev.rows, floor[Ev.v])
          /\ floor' = [floor EXCEPT ![Ev.v] = Up(Ev.v, Ev.rows)]
          /\ UNCHANGED <<cl, vw, began, done, pend, stopped>> /\ Step
TNext == Setup \/ Inv \/ Ret \/ Export
TSpec == TInit /\ [][TNext]_<<fvars, tid, l>>
=============================================================================
