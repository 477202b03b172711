-------------------------------- MODULE RpcZ ---------------------------------
(* zpages/rpcz: the statistics page of RPCs as a function of the view data        *)
(* delivered so far. Per direction and method the page shows the count, errors,    *)
(* mean latency and byte rates of the latest data of each view. Data is given in    *)
(* whole milliseconds and KiB; time in seconds.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES now, snap   \* (dir, method) -> statistics
zvars == <<now, snap>>
Views == {"completed", "latency", "sent", "received", "sentmsgs", "recvmsgs", "other"}
Zero == [cnt |-> 0, cat |-> 1, err |-> 0, lsum |-> 0, lcnt |-> 0, out |-> 0, oat |-> 1, inp |-> 0, iat |-> 1]
Rng(q) == {q[i] : i \in 1..Len(q)}
SumOf(f) == LET S[D \in SUBSET DOMAIN f] == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + S[D \ {x}] IN S[DOMAIN f]
(* rows: m method, st status (0: no status tag, 1: OK, more: an error), n count, s sum *)
Errors(rows, m) == SumOf([i \in {j \in 1..Len(rows) : rows[j].m = m /\ rows[j].st > 1} |-> rows[i].n])
Row(rows, m) == rows[CHOOSE i \in 1..Len(rows) : rows[i].m = m /\ \A j \in i+1..Len(rows) : rows[j].m # m]
Old(k) == IF k \in DOMAIN snap THEN snap[k] ELSE Zero
Upd(d, v, rows, m) ==
  LET o == Old(<<d, m>>) r == Row(rows, m) IN
  CASE v = "completed" -> [o EXCEPT !.err = Errors(rows, m)]
    [] v = "latency" -> [o EXCEPT !.lsum = r.s, !.lcnt = r.n]
    [] v = "sent" -> [o EXCEPT !.out = r.s, !.oat = now]
    [] v = "received" -> [o EXCEPT !.inp = r.s, !.iat = now]
    (* RPCs are counted by the distribution of the messages of the requests *)
    [] v = (IF d = 1 THEN "sentmsgs" ELSE "recvmsgs") -> [o EXCEPT !.cnt = r.n, !.cat = now]
    [] OTHER -> o
Deliver(d, v, rows) ==
  /\ IF v = "other" THEN UNCHANGED snap
     ELSE LET ks == {<<d, rows[i].m>> : i \in 1..Len(rows)} IN
          snap' = [k \in DOMAIN snap \cup ks |-> IF k \in ks THEN Upd(d, v, rows, k[2]) ELSE snap[k]]
  /\ UNCHANGED now
Pass(t) == t > now /\ now' = t /\ UNCHANGED snap
ZInit == now = 0 /\ snap = << >>
Methods(d) == {k[2] : k \in {k \in DOMAIN snap : k[1] = d}}
(* a count is shown exactly, on the HTML page from a million on in thousands *)
CountOK(x, c, text) == IF text \/ c < 1000000 THEN x = c ELSE x % 1000 = 0 /\ x - c <= 500 /\ c - x <= 500
(* |x - y| within e *)
Near(x, y, e) == x - y <= e /\ y - x <= e
(* a shown row: cnt, err, lat in microseconds (within tol), rates per second times scale *)
LatOK(s, us, tol) == IF s.lcnt = 0 THEN us = 0 ELSE Near(us * s.lcnt, s.lsum * 1000, tol * s.lcnt)
RateOK(x, total, at, scale) == Near(x * at, total * scale, at)
=============================================================================
