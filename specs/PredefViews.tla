---------------------------- MODULE PredefViews ----------------------------
(* The predefined views of the HTTP and gRPC plugins, as functions of the       *)
(* history of requests. Kinds of requests: gc, gs (gRPC client, server), hc, hs *)
(* (HTTP client, server). Numbers (bytes, microseconds, messages) are pairs     *)
(* <<hi, lo>> in base 1024, since a gigabyte is beyond TLC's integers.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES reg,   \* names of the registered views
          rows,  \* for each of them, its rows: from sets of <<tag, value>> to what was counted
          live   \* requests under way, by id
pvars == <<reg, rows, live>>

P(x) == <<x \div 1024, x % 1024>>
Add(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div 1024, lo % 1024>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Zero == <<0, 0>>

Bytes == <<<<1, 0>>, <<2, 0>>, <<4, 0>>, <<16, 0>>, <<64, 0>>, <<256, 0>>, <<1024, 0>>, <<4096, 0>>, <<16384, 0>>,
           <<65536, 0>>, <<262144, 0>>, <<1048576, 0>>, <<4194304, 0>>>>
Msgs == [i \in 1..17 |-> P(2 ^ (i - 1))]
Tail1 == <<13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300, 400, 500, 650, 800, 1000, 2000, 5000, 10000, 20000, 50000, 100000>>
Ms(s) == [i \in 1..Len(s) |-> P(1000 * s[i])]
GrpcMs == <<P(10), P(50), P(100), P(300), P(600), P(800)>> \o Ms(<<1, 2, 3, 4, 5, 6, 8, 10>> \o Tail1)
HttpMs == Ms(<<1, 2, 3, 4, 5, 6, 8, 10>> \o Tail1)
Bounds(agg) == CASE agg = "bytes" -> Bytes [] agg = "msgs" -> Msgs [] agg = "gms" -> GrpcMs [] agg = "hms" -> HttpMs [] OTHER -> << >>

V(kind, m, keys, agg) == [kind |-> kind, m |-> m, keys |-> keys, agg |-> agg]
CM == "grpc_client_method"  CS == "grpc_client_status"  SM == "grpc_server_method"  SS == "grpc_server_status"
HM == "http_client_method"  HS == "http_client_status"
Gc == "grpc.io/client/"  Gs == "grpc.io/server/"  Hc == "opencensus.io/http/client/"  Hs == "opencensus.io/http/server/"
(* server_latency of clients is declared, and nothing records it *)
Views ==
     Gc \o "sent_bytes_per_rpc" :> V("gc", "sb", {CM}, "bytes") @@ Gc \o "received_bytes_per_rpc" :> V("gc", "rb", {CM}, "bytes")
  @@ Gc \o "roundtrip_latency" :> V("gc", "lat", {CM}, "gms") @@ Gc \o "completed_rpcs" :> V("gc", "lat", {CM, CS}, "count")
  @@ Gc \o "started_rpcs" :> V("gc", "begun", {CM}, "count") @@ Gc \o "sent_messages_per_rpc" :> V("gc", "sn", {CM}, "msgs")
  @@ Gc \o "received_messages_per_rpc" :> V("gc", "rn", {CM}, "msgs") @@ Gc \o "server_latency" :> V("gc", "none", {CM}, "gms")
  @@ Gs \o "sent_bytes_per_rpc" :> V("gs", "sb", {SM}, "bytes") @@ Gs \o "received_bytes_per_rpc" :> V("gs", "rb", {SM}, "bytes")
  @@ Gs \o "server_latency" :> V("gs", "lat", {SM}, "gms") @@ Gs \o "completed_rpcs" :> V("gs", "lat", {SM, SS}, "count")
  @@ Gs \o "started_rpcs" :> V("gs", "begun", {SM}, "count") @@ Gs \o "sent_messages_per_rpc" :> V("gs", "sn", {SM}, "msgs")
  @@ Gs \o "received_messages_per_rpc" :> V("gs", "rn", {SM}, "msgs")
  @@ Hc \o "sent_bytes" :> V("hc", "sb", {HM, HS}, "bytes") @@ Hc \o "received_bytes" :> V("hc", "rb", {HM, HS}, "bytes")
  @@ Hc \o "roundtrip_latency" :> V("hc", "lat", {HM, HS}, "hms") @@ Hc \o "completed_count" :> V("hc", "lat", {HM, HS}, "count")
  @@ Hc \o "request_count" :> V("hc", "begun", {}, "count") @@ Hc \o "request_bytes" :> V("hc", "sb", {}, "bytes")
  @@ Hc \o "response_bytes" :> V("hc", "rb", {}, "bytes") @@ Hc \o "latency" :> V("hc", "lat", {}, "hms")
  @@ Hc \o "request_count_by_method" :> V("hc", "sb", {"http.method"}, "count")
  @@ Hc \o "response_count_by_status_code" :> V("hc", "lat", {"http.status"}, "count")
  @@ Hs \o "request_count" :> V("hs", "begun", {}, "count") @@ Hs \o "request_bytes" :> V("hs", "rb", {}, "bytes")
  @@ Hs \o "response_bytes" :> V("hs", "sb", {}, "bytes") @@ Hs \o "latency" :> V("hs", "lat", {}, "hms")
  @@ Hs \o "request_count_by_method" :> V("hs", "begun", {"http.method"}, "count")
  @@ Hs \o "response_count_by_status_code" :> V("hs", "lat", {"http.status"}, "count")
Groups ==
     "gc" :> {Gc \o "sent_bytes_per_rpc", Gc \o "received_bytes_per_rpc", Gc \o "roundtrip_latency", Gc \o "completed_rpcs"}
  @@ "gs" :> {Gs \o "sent_bytes_per_rpc", Gs \o "received_bytes_per_rpc", Gs \o "server_latency", Gs \o "completed_rpcs"}
  @@ "hc" :> {Hc \o x : x \in {"request_count", "request_bytes", "response_bytes", "latency", "request_count_by_method", "response_count_by_status_code"}}
  @@ "hs" :> {Hs \o x : x \in {"request_count", "request_bytes", "response_bytes", "latency", "request_count_by_method", "response_count_by_status_code"}}

Codes == <<"CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED",
           "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE",
           "DATA_LOSS", "UNAUTHENTICATED">>
StatusText(kind, st) == IF kind \in {"gc", "gs"} THEN (IF st = 0 THEN "OK" ELSE Codes[st]) ELSE ToString(st)
MethodKeys == {CM, SM, HM, "http.method"}
(* the tags of a request of a kind, as a view on keys sees them *)
RowOf(keys, kind, meth, st) == {<<k, IF k \in MethodKeys THEN meth ELSE StatusText(kind, st)>> : k \in keys}

None == [n |-> 0, sum |-> Zero, min |-> Zero, max |-> Zero, b |-> << >>]
Bucket(bs, x) == Cardinality({i \in 1..Len(bs) : ~Lt(x, bs[i])})
Put(acc, agg, x) ==
  IF agg = "count" THEN [acc EXCEPT !.n = @ + 1]
  ELSE LET i == Bucket(Bounds(agg), x) IN
       [n |-> acc.n + 1, sum |-> Add(acc.sum, x),
        min |-> IF acc.n = 0 \/ Lt(x, acc.min) THEN x ELSE acc.min,
        max |-> IF acc.n = 0 \/ Lt(acc.max, x) THEN x ELSE acc.max,
        b |-> [j \in DOMAIN acc.b \cup {i} |-> (IF j \in DOMAIN acc.b THEN acc.b[j] ELSE 0) + (IF j = i THEN 1 ELSE 0)]]
(* ms: measurements by name, recorded together under the tags of the request *)
Record(kind, meth, st, ms) ==
  rows' = [v \in reg |->
    LET d == Views[v] IN
    IF d.kind # kind \/ d.m \notin DOMAIN ms THEN rows[v]
    ELSE LET k == RowOf(d.keys, kind, meth, st)
             old == IF k \in DOMAIN rows[v] THEN rows[v][k] ELSE None IN
         [x \in DOMAIN rows[v] \cup {k} |-> IF x = k THEN Put(old, d.agg, ms[d.m]) ELSE rows[v][x]]]

PInit == reg = {} /\ rows = << >> /\ live = << >>
Register(vs) == /\ reg' = reg \cup vs
                /\ rows' = [v \in reg' |-> IF v \in reg THEN rows[v] ELSE << >>]
                /\ UNCHANGED live
Unregister(vs) == /\ reg' = reg \ vs
                  /\ rows' = [v \in reg' |-> rows[v]]
                  /\ UNCHANGED live
Begin(id, kind, meth) == /\ id \notin DOMAIN live
                         /\ live' = [i \in DOMAIN live \cup {id} |-> IF i = id THEN [kind |-> kind, meth |-> meth] ELSE live[i]]
                         /\ Record(kind, meth, 0, [begun |-> P(1)])
                         /\ UNCHANGED reg
(* q: what was sent and received; absent sizes are not measured *)
Measures(kind, q) ==
  CASE kind \in {"gc", "gs"} -> [sb |-> q.sent, sn |-> P(q.sn), rb |-> q.recv, rn |-> P(q.rn), lat |-> q.dur]
    [] kind = "hc" -> [sb |-> q.sent, rb |-> q.recv, lat |-> q.dur]
    [] kind = "hs" /\ q.body -> [sb |-> q.sent, rb |-> q.recv, lat |-> q.dur]
    [] OTHER -> [sb |-> q.sent, lat |-> q.dur]
End(id, st, q) == /\ id \in DOMAIN live
                  /\ LET r == live[id] IN Record(r.kind, r.meth, st, Measures(r.kind, q))
                  /\ live' = [i \in DOMAIN live \ {id} |-> live[i]]
                  /\ UNCHANGED reg
=============================================================================
