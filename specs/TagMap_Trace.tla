---------------------------- MODULE TagMap_Trace ----------------------------
EXTENDS TagMap, TraceKit
TInit == TraceInit0 /\ ctx = [c \in {0} |-> NoMap]
(* an event of an unknown kind is never explained *)
Pairs(M) == {[k |-> k, v |-> M[k].v] : k \in DOMAIN M}
Rng(q) == {q[i] : i \in 1..Len(q)}
IsMap(q, M) == Rng(q) = Pairs(M) /\ Len(q) = Cardinality(DOMAIN M)
TNext ==
  /\ Is("call") /\ Step
  /\ CASE Ev.op = "new" -> IF Ev.err THEN NewFails(Ev.muts) /\ Ev.same ELSE New(Ev.c, Ev.d, Ev.muts)
       [] Ev.op = "newkey" -> Ev.ok = ValidKey(Ev.k) /\ (Ev.ok => Ev.name = Ev.k) /\ UNCHANGED ctx
       [] Ev.op = "get" -> /\ Ev.ok = (Ev.k \in DOMAIN MapOf(Ev.c))
                           /\ Ev.v = (IF Ev.ok THEN MapOf(Ev.c)[Ev.k].v ELSE << >>)
                           /\ UNCHANGED ctx
       [] Ev.op = "labels" -> IsMap(Ev.m, MapOf(Ev.c)) /\ Ev.runs = 1 /\ UNCHANGED ctx
       [] Ev.op = "str" -> Ev.none = ctx[Ev.c].none /\ IsMap(Ev.m, MapOf(Ev.c)) /\ UNCHANGED ctx
       [] Ev.op = "enc" -> (IF ctx[Ev.c].none THEN Parse(Ev.b).ok /\ Parse(Ev.b).fs = << >> ELSE EncodingOf(Ev.b, MapOf(Ev.c))) /\ UNCHANGED ctx
       [] Ev.op = "dec" -> LET p == Parse(Ev.b) IN
              /\ Ev.err = ~p.ok /\ ~Ev.part
              /\ (p.ok => IsMap(Ev.m, DecodeMap(Ev.b)))
              /\ ctx' = IF p.ok /\ Ev.d > 0 THEN Put(ctx, Ev.d, AMap(DecodeMap(Ev.b))) ELSE ctx
       [] Ev.op = "each" -> /\ Ev.err = ~Parse(Ev.b).ok /\ Ev.m = Parse(Ev.b).fs /\ UNCHANGED ctx
       [] OTHER -> FALSE /\ UNCHANGED ctx
TSpec == TInit /\ [][TNext]_<<ctx, tid, l>>
=============================================================================
