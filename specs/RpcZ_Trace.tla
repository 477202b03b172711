----------------------------- MODULE RpcZ_Trace ------------------------------
(* Binds RpcZ.tla to recorded pages. Either the view data is delivered by the      *)
(* driver (events "deliver"), in virtual time, or RPC statistics are recorded and    *)
(* reach the page through the views (events "rec", "sync").                           *)
EXTENDS RpcZ, TraceKit
VARIABLES rec,   \* RPCs recorded, or whose recording began
          base,  \* how many of them are certainly on the page
          pend, open
tvars == <<zvars, rec, base, pend, open>>
TInit == TraceInit0 /\ ZInit /\ rec = << >> /\ base = 0 /\ pend = << >> /\ open = << >>
At == Ev.t = now
Advance == More /\ "t" \in DOMAIN Ev /\ Ev.t > now /\ Pass(Ev.t) /\ UNCHANGED <<rec, base, pend, open>> /\ Silent
Del1 == IsOp("call", "deliver") /\ At /\ Deliver(Ev.d, Ev.v, Ev.rows) /\ UNCHANGED <<rec, base, pend, open>> /\ Step
(* a page: rows by direction, in the order of methods; the driver checks the order *)
RowOK(d, r) == /\ <<d, r.m>> \in DOMAIN snap
               /\ LET s == snap[<<d, r.m>>] IN
                  /\ CountOK(r.cnt, s.cnt, r.text) /\ CountOK(r.err, s.err, r.text) /\ LatOK(s, r.lat, r.tol)
                  /\ RateOK(r.rate, s.cnt, s.cat, r.rs) /\ RateOK(r.out, s.out, s.oat, r.ds) /\ RateOK(r.inp, s.inp, s.iat, r.ds)
Page == /\ IsOp("call", "page") /\ At /\ Ev.sorted
        /\ \A d \in {1, 2} : LET rows == Ev.rows[d] IN
             /\ {rows[i].m : i \in 1..Len(rows)} = Methods(d) /\ Len(rows) = Cardinality(Methods(d))
             /\ \A i \in 1..Len(rows) : RowOK(d, rows[i])
        /\ UNCHANGED tvars /\ Step
(* recorded RPCs: [d, m, st, l] *)
RecB == Is("inv") /\ Ev.op = "rec" /\ rec' = Append(rec, Ev) /\ open' = [x \in DOMAIN open \cup {Ev.th} |-> IF x = Ev.th THEN Len(rec) + 1 ELSE open[x]]
        /\ UNCHANGED <<zvars, base, pend>> /\ Step
RecE == Is("ret") /\ Ev.op = "rec" /\ open' = [x \in DOMAIN open \ {Ev.th} |-> open[x]] /\ UNCHANGED <<zvars, rec, base, pend>> /\ Step
(* everything recorded has been delivered *)
Sync == IsOp("call", "sync") /\ open = << >> /\ base' = Len(rec) /\ UNCHANGED <<zvars, rec, pend, open>> /\ Step
(* a page that was read from while some RPCs were recorded lies between *)
PageB == Is("inv") /\ Ev.op = "live" /\ pend' = [x \in DOMAIN pend \cup {Ev.th} |-> IF x = Ev.th THEN base ELSE pend[x]] /\ UNCHANGED <<zvars, rec, base, open>> /\ Step
Cnt(n, d, m) == Cardinality({i \in 1..n : rec[i].d = d /\ rec[i].m = m})
Err(n, d, m) == Cardinality({i \in 1..n : rec[i].d = d /\ rec[i].m = m /\ rec[i].st > 1})
Lat(n, d, m) == SumOf([i \in {i \in 1..n : rec[i].d = d /\ rec[i].m = m} |-> rec[i].l])
PageE == /\ Is("ret") /\ Ev.op = "live" /\ Ev.sorted
         /\ LET b == pend[Ev.th] e == Len(rec) IN
            \A d \in {1, 2} : LET rows == Ev.rows[d] shown == {rows[i].m : i \in 1..Len(rows)} IN
              /\ Len(rows) = Cardinality(shown)
              /\ {rec[i].m : i \in {i \in 1..b : rec[i].d = d}} \subseteq shown
              /\ shown \subseteq {rec[i].m : i \in {i \in 1..e : rec[i].d = d}}
              /\ \A i \in 1..Len(rows) : LET r == rows[i] IN
                   /\ Cnt(b, d, r.m) <= r.cnt /\ r.cnt <= Cnt(e, d, r.m)
                   /\ Err(b, d, r.m) <= r.err /\ r.err <= Err(e, d, r.m)
                   /\ (b = e /\ Cnt(e, d, r.m) > 0) => Near(r.lat * Cnt(e, d, r.m), Lat(e, d, r.m) * 1000, r.tol * Cnt(e, d, r.m))
         /\ pend' = [x \in DOMAIN pend \ {Ev.th} |-> pend[x]] /\ UNCHANGED <<zvars, rec, base, open>> /\ Step
TNext == Advance \/ Del1 \/ Page \/ RecB \/ RecE \/ Sync \/ PageB \/ PageE
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
