------------------------------ MODULE HttpHooks ------------------------------
(* The span-annotating httptrace hooks of ochttp.Transport (NewClientTrace =           *)
(* NewSpanAnnotatingClientTrace): each hook that net/http calls for a request becomes    *)
(* one annotation of that request's client span, until the span ends. A call is          *)
(* <<hook, arguments>>, an annotation <<message, attributes>>.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES hk   \* request -> [on, smp, live, seq, made, own]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* --- what each hook says; arguments are texts, booleans as "true"/"false", no error is "" --- *)
S(k, v) == <<"httptrace." \o k, "string " \o v>>
B(k, v) == <<"httptrace." \o k, "bool " \o v>>
Err(k, v) == IF v = "" THEN {} ELSE {S(k, v)}
RECURSIVE Join(_)
Join(q) == IF q = << >> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " , " \o Join(Tail(q))
Annot(c) ==
  LET k == c[1] a == c[2] IN
  CASE k = "GetConn" -> {<<k, {S("get_connection.host_port", a[1])}>>}
    [] k = "GotConn" -> {<<k, {B("got_connection.reused", a[1]), B("got_connection.was_idle", a[2])}
                             \cup (IF a[2] = "true" THEN {S("got_connection.idle_time", a[3])} ELSE {})>>}
    [] k = "PutIdleConn" -> {<<k, Err("put_idle_connection.error", a[1])>>}
    [] k = "DNSStart" -> {<<k, {S("dns_start.host", a[1])}>>}
    [] k = "DNSDone" -> {<<k, {S("dns_done.addrs", Join(SubSeq(a, 2, Len(a))))} \cup Err("dns_done.error", a[1])>>}
    [] k = "ConnectStart" -> {<<k, {S("connect_start.network", a[1]), S("connect_start.addr", a[2])}>>}
    [] k = "ConnectDone" -> {<<k, {S("connect_done.network", a[1]), S("connect_done.addr", a[2])} \cup Err("connect_done.error", a[3])>>}
    [] k = "TLSHandshakeDone" -> {<<k, Err("tls_handshake_done.error", a[1])>>}
    [] k = "WroteRequest" -> {<<k, Err("wrote_request.error", a[1])>>}
    [] k \in {"GotFirstResponseByte", "Got100Continue", "TLSHandshakeStart", "WroteHeaders", "Wait100Continue"} -> {<<k, {}>>}
    [] OTHER -> {}   \* the hooks that are not annotated
(* --- requests --- *)
KInit == hk = << >>
Begin(id, on, health, smp, own) ==
  id \notin DOMAIN hk /\ hk' = Put(hk, id, [on |-> on /\ ~health, smp |-> smp /\ ~health, live |-> TRUE, seq |-> << >>, made |-> 0, own |-> IF own THEN 0 ELSE -1])
(* the client trace is asked for, once *)
Make(id) == id \in DOMAIN hk /\ hk[id].on /\ hk[id].made = 0 /\ hk' = [hk EXCEPT ![id].made = 1]
(* hooks called by net/http, in one order or, with two sequences, concurrently *)
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE (IF Annot(q[1]) = {} THEN << >> ELSE <<CHOOSE x \in Annot(q[1]) : TRUE>>) \o Cat(Tail(q))
Called(id, qa, qb) ==
  /\ id \in DOMAIN hk
  /\ LET r == hk[id] a == Cat(qa) b == Cat(qb) IN
     hk' = [hk EXCEPT ![id].seq = IF r.on /\ r.live /\ a \o b # << >> THEN Append(@, <<a, b>>) ELSE @,
                      ![id].own = IF @ < 0 THEN @ ELSE @ + Len(qa) + Len(qb)]
End(id) == id \in DOMAIN hk /\ hk' = [hk EXCEPT ![id].live = FALSE]
(* --- what the exported span shows: all annotations, or the latest max of them --- *)
RECURSIVE Total(_)
Total(q) == IF q = << >> THEN 0 ELSE Len(q[1][1]) + Len(q[1][2]) + Total(Tail(q))
RECURSIVE Orders(_, _)   \* the interleavings of two sequences
Orders(a, b) == IF a = << >> THEN {b} ELSE IF b = << >> THEN {a}
                ELSE {<<a[1]>> \o x : x \in Orders(Tail(a), b)} \cup {<<b[1]>> \o x : x \in Orders(a, Tail(b))}
RECURSIVE All(_)
All(q) == IF q = << >> THEN {<< >>} ELSE {x \o y : x \in Orders(q[1][1], q[1][2]), y \in All(Tail(q))}
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Shown(id, max, s, dropped) == LET n == Total(hk[id].seq) IN
  /\ \E x \in All(hk[id].seq) : s = Last(x, max)
  /\ dropped = (IF n > max THEN n - max ELSE 0)
=============================================================================
