------------------------------- MODULE Reader -------------------------------
(* Metric producers and readers: metric/metricproducer (the global manager) and *)
(* metric/metricexport (interval readers). Time is in milliseconds.             *)
(* An export (of a reader's loop, of a Flush, of a ReadAndExport call) takes the *)
(* producers registered at one moment, reads each once, and hands the            *)
(* concatenated results to the exporter in one call.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES now,
  prods,  \* the registered producers
  size,   \* how many metrics each producer returns
  rdr,    \* reader -> [int, run, next, iv, buf, busy, snaps, base]
  reads,  \* read number -> producer, of reads whose result is not exported yet
  calls   \* direct exports in progress: id -> [x: exporter, st, snaps, base]
rvars == <<now, prods, size, rdr, reads, calls>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
DefaultInt == 60000
MinInt == 1000
RInit == now = 0 /\ prods = {} /\ size = << >> /\ rdr = << >> /\ reads = << >> /\ calls = << >>

(* every moment an export may have taken the producers at *)
Watch(ps) == /\ prods' = ps
             /\ rdr' = [r \in DOMAIN rdr |-> [rdr[r] EXCEPT !.snaps = @ \cup {ps}]]
             /\ calls' = [i \in DOMAIN calls |-> [calls[i] EXCEPT !.snaps = @ \cup {ps}]]
AddProd(p) == Watch(prods \cup {p}) /\ UNCHANGED <<now, size, reads>>
DelProd(p) == Watch(prods \ {p}) /\ UNCHANGED <<now, size, reads>>
NewProd(p, n) == p \notin DOMAIN size /\ size' = Put(size, p, n) /\ UNCHANGED <<now, prods, rdr, reads, calls>>

(* interval readers; intv = 0: the default interval *)
NewReader(r) == /\ r \notin DOMAIN rdr
                /\ rdr' = Put(rdr, r, [int |-> 0, run |-> FALSE, next |-> 0, iv |-> 0, buf |-> FALSE, busy |-> FALSE, snaps |-> {}, base |-> {}])
                /\ UNCHANGED <<now, prods, size, reads, calls>>
SetInt(r, d) == rdr' = [rdr EXCEPT ![r].int = d] /\ UNCHANGED <<now, prods, size, reads, calls>>
StartErr(r) == rdr[r].run \/ (rdr[r].int # 0 /\ rdr[r].int < MinInt)
Start(r) == /\ IF StartErr(r) THEN UNCHANGED rdr
               ELSE LET d == IF rdr[r].int = 0 THEN DefaultInt ELSE rdr[r].int IN
                    rdr' = [rdr EXCEPT ![r].run = TRUE, ![r].iv = d, ![r].next = now + d, ![r].buf = FALSE]
            /\ UNCHANGED <<now, prods, size, reads, calls>>
Exporting(r) == rdr[r].busy \/ \E i \in DOMAIN calls : calls[i].f /\ calls[i].x = r /\ calls[i].st \in {"go", "busy"}
(* a Stop that stops the reader waits for the exports under way: none comes after it *)
Stop(r) == /\ IF rdr[r].run THEN ~Exporting(r) ELSE ~rdr[r].busy
           /\ rdr' = [rdr EXCEPT ![r].run = FALSE, ![r].buf = FALSE]
           /\ UNCHANGED <<now, prods, size, reads, calls>>
(* the passing of one interval; a tick nobody could take yet is kept, one only *)
Tick(r) == /\ rdr[r].run /\ rdr[r].next = now
           /\ rdr' = [rdr EXCEPT ![r].buf = TRUE, ![r].next = @ + rdr[r].iv, ![r].snaps = IF rdr[r].buf THEN @ ELSE {prods},
                                 ![r].base = IF rdr[r].buf THEN @ ELSE DOMAIN reads]
           /\ UNCHANGED <<now, prods, size, reads, calls>>
Runners == {r \in DOMAIN rdr : rdr[r].run}
Due(r) == rdr[r].run /\ rdr[r].buf /\ ~rdr[r].busy
Later(t) == /\ t > now
            /\ \A r \in DOMAIN rdr : ~Due(r) /\ (rdr[r].run => rdr[r].next > now /\ rdr[r].next >= t)
            /\ now' = t /\ UNCHANGED <<prods, size, rdr, reads, calls>>

ReadProd(p, n) == n \notin DOMAIN reads /\ reads' = Put(reads, n, p) /\ UNCHANGED <<now, prods, size, rdr, calls>>
(* what is exported: the result of one read of each producer; a sequence of <<read, index>> *)
Ids(d) == {d[i][1] : i \in 1..Len(d)}
DataOK(d, snaps, base) ==   \* base: reads made before this export began
  /\ Ids(d) \subseteq DOMAIN reads \ base
  /\ \A n, m \in Ids(d) : n # m => reads[n] # reads[m]
  /\ \E ps \in snaps : {reads[n] : n \in Ids(d)} = {p \in ps : size[p] > 0}
  /\ \A n \in Ids(d) : SelectSeq(d, LAMBDA x : x[1] = n) = [i \in 1..size[reads[n]] |-> <<n, i>>]
Used(d) == [n \in DOMAIN reads \ Ids(d) |-> reads[n]]
LoopExp(r, d) == /\ Due(r) /\ DataOK(d, rdr[r].snaps, rdr[r].base)
                 /\ rdr' = [rdr EXCEPT ![r].buf = FALSE, ![r].busy = TRUE]
                 /\ reads' = Used(d) /\ UNCHANGED <<now, prods, size, calls>>
LoopEnd(r) == /\ rdr[r].busy
              /\ rdr' = [rdr EXCEPT ![r].busy = FALSE, ![r].snaps = {prods}, ![r].base = DOMAIN reads]
              /\ UNCHANGED <<now, prods, size, reads, calls>>
(* Flush and ReadAndExport: x is the exporter; f: it is a Flush, which works only while not running *)
CallB(i, x, f) == calls' = Put(calls, i, [x |-> x, f |-> f, st |-> "new", snaps |-> {prods}, base |-> DOMAIN reads]) /\ UNCHANGED <<now, prods, size, rdr, reads>>
CallGo(i) == calls[i].st = "new" /\ calls' = [calls EXCEPT ![i].st = "go", ![i].base = DOMAIN reads] /\ UNCHANGED <<now, prods, size, rdr, reads>>
CallSkip(i) == calls[i].st = "new" /\ calls' = [calls EXCEPT ![i].st = "done"] /\ UNCHANGED <<now, prods, size, rdr, reads>>
CallExp(i, d) == /\ calls[i].st = "go" /\ DataOK(d, calls[i].snaps, calls[i].base)
                 /\ calls' = [calls EXCEPT ![i].st = "busy"] /\ reads' = Used(d) /\ UNCHANGED <<now, prods, size, rdr>>
CallEnd(i) == calls[i].st = "busy" /\ calls' = [calls EXCEPT ![i].st = "done"] /\ UNCHANGED <<now, prods, size, rdr, reads>>
CallR(i) == calls[i].st = "done" /\ calls' = Del(calls, i) /\ UNCHANGED <<now, prods, size, rdr, reads>>
=============================================================================
