-------------------------------- MODULE Grpc --------------------------------
(* plugin/ocgrpc: RPCs seen by the stats handlers of clients and servers. An RPC   *)
(* is tagged (its span starts), reports messages in and out, and ends; at the end     *)
(* its span is exported and its statistics are recorded, once each.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES rpc   \* id -> RPC of one side
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == [t |-> 0, s |-> 0, smp |-> FALSE]
(* samplers: 0 not given, 1 always, 2 never, 3 as the parent *)
Decide(x, psmp) == CASE x = 1 -> TRUE [] x = 2 -> FALSE [] OTHER -> psmp
(* the context in the incoming metadata, unless the endpoint is public, or the span of the caller *)
Remote(c) == IF c.public THEN None ELSE c.remote
Parent(c) == IF Remote(c) # None THEN Remote(c) ELSE c.local
Sampled(c) == LET re == Remote(c) p == Parent(c) IN
  IF c.opt # 0 THEN Decide(c.opt, p # None /\ p.smp) ELSE IF re # None THEN Decide(c.def, re.smp) ELSE IF c.local # None THEN c.local.smp ELSE Decide(c.def, FALSE)
SpanOK(c, x) == /\ IF Parent(c) = None THEN x.t # 0 /\ x.t # c.remote.t ELSE x.t = Parent(c).t
                /\ x.s # 0 /\ x.s \notin {c.remote.s, c.local.s} /\ x.smp = Sampled(c)
Links(c) == IF c.public /\ c.remote # None THEN <<[t |-> c.remote.t, s |-> c.remote.s]>> ELSE << >>
(* the tags of the RPC's context: of a client those of its caller, of a server those of the metadata and the method *)
MethodKey(c) == IF c.client THEN "grpc_client_method" ELSE "grpc_server_method"
StatusKey(c) == IF c.client THEN "grpc_client_status" ELSE "grpc_server_status"
Tags(c) == IF c.client THEN c.tags ELSE Put(c.tags, MethodKey(c), c.method)
Fresh(c, x, at) == [c |-> c, span |-> x, began |-> FALSE, sn |-> 0, sb |-> 0, rn |-> 0, rb |-> 0, evs |-> << >>, st |-> "run", code |-> 0, msg |-> "", name |-> "OK",
                    from |-> at, to |-> 0]
(* the RPC is tagged: its span x *)
Tag(id, c, x, at) == /\ id \notin DOMAIN rpc /\ SpanOK(c, x) /\ \A o \in DOMAIN rpc : rpc[o].span.s # x.s
                     /\ rpc' = Put(rpc, id, Fresh(c, x, at))
TagAny(id, c, x, at) == id \notin DOMAIN rpc /\ rpc' = Put(rpc, id, Fresh(c, x, at))
Begin(id) == id \in DOMAIN rpc /\ rpc' = [rpc EXCEPT ![id].began = TRUE]
Msg1(r, out, n, w) == IF r.st # "run" THEN r
  ELSE LET e == [r EXCEPT !.evs = Append(@, <<IF out THEN 1 ELSE 2, n, w>>)] IN
       IF out THEN [e EXCEPT !.sn = @ + 1, !.sb = @ + n] ELSE [e EXCEPT !.rn = @ + 1, !.rb = @ + n]
(* a message of n bytes (w on the wire) sent or received; nothing after the end counts *)
Message(id, out, n, w) == id \in DOMAIN rpc /\ rpc' = [rpc EXCEPT ![id] = Msg1(@, out, n, w)]
Codes == <<"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
           "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED">>
Name(k) == IF k + 1 \in DOMAIN Codes THEN Codes[k + 1] ELSE "CODE_" \o ToString(k)
(* the end, with the code and message of its error *)
End(id, k, m, at) == /\ id \in DOMAIN rpc /\ rpc[id].st = "run"
                     /\ rpc' = [rpc EXCEPT ![id].st = "over", ![id].code = k, ![id].msg = m, ![id].name = Name(k), ![id].to = at]
GInit == rpc = << >>
(* --- what is exported and recorded --- *)
Exported(r) == r.st = "over" /\ r.span.smp
Value(r, m) == CASE m = "sn" -> r.sn [] m = "sb" -> r.sb [] m = "rn" -> r.rn [] m = "rb" -> r.rb [] m = "lat" -> r.to - r.from [] OTHER -> 1
Counted(r, m) == IF m = "begun" THEN r.began ELSE r.st = "over"
(* the values of the tags of a recording: those of the context, the method and, at the end, the status *)
TagsAt(r, m) == LET t == Put(Tags(r.c), MethodKey(r.c), r.c.method) IN IF m = "begun" THEN t ELSE Put(t, StatusKey(r.c), r.name)
ValueOf(t, k) == IF k \in DOMAIN t THEN t[k] ELSE ""
RECURSIVE SumV(_, _)
SumV(S, m) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Value(rpc[i], m) + SumV(S \ {i}, m)
(* the rows of measure m of one side by the tag keys ks: tag values -> number and sum *)
Rows(client, m, ks) ==
  LET I == {i \in DOMAIN rpc : rpc[i].c.client = client /\ Counted(rpc[i], m)}
      K == [i \in I |-> LET t == TagsAt(rpc[i], m) IN [j \in 1..Len(ks) |-> ValueOf(t, ks[j])]] IN
  [k \in {K[i] : i \in I} |-> LET J == {i \in I : K[i] = k} IN [n |-> Cardinality(J), sum |-> SumV(J, m), who |-> J]]
=============================================================================
