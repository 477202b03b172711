--------------------------- MODULE Resource_Trace ---------------------------
(* Binds Resource.tla to recorded calls.                                          *)
EXTENDS Resource, TraceKit
VARIABLES env,   \* the environment variables: 1 the type, 2 the labels
          texts  \* encodings seen, by labels
tvars == <<env, texts>>
TInit == TraceInit0 /\ env = [i \in {1, 2} |-> << >>] /\ texts = << >>
Same(m, labs) == Len(m) = Len(labs) /\ Rng(m) = Rng(labs)
(* what a text must give: err, and labels as pairs of byte strings *)
Gives(t, err, labs) == LET d == Decode(t) IN
  CASE d.st = "ok" -> ~err /\ Same(d.m, labs)
    [] d.st = "err" -> err /\ labs = << >>
    [] OTHER -> err => labs = << >>
Dec == IsOp("call", "decode") /\ Gives(Ev.s, Ev.err, Ev.m) /\ UNCHANGED tvars /\ Step
(* the encoding of labels decodes to them, and is the same every time *)
Enc == /\ IsOp("call", "encode")
       /\ Nice(Ev.m) => LET d == Decode(Ev.s) IN d.st = "ok" /\ Same(d.m, Ev.m)
       /\ LET k == {<<x[1], x[2]>> : x \in Rng(Ev.m)} IN
          /\ k \in DOMAIN texts => texts[k] = Ev.s
          /\ texts' = [x \in DOMAIN texts \cup {k} |-> IF x = k THEN Ev.s ELSE texts[x]]
       /\ UNCHANGED env /\ Step
Set == IsOp("call", "setenv") /\ env' = [env EXCEPT ![Ev.i] = Ev.s] /\ UNCHANGED texts /\ Step
Env == /\ IsOp("call", "fromenv")
       /\ IF Ev.err THEN Decode(env[2]).st # "ok" /\ Ev.isnil
          ELSE ~Ev.isnil /\ Ev.t = Trim(env[1]) /\ Gives(env[2], FALSE, Ev.m)
       /\ UNCHANGED tvars /\ Step
(* what a detector of a list gave, and what the list gave; labels are [k, v] numbers *)
Fun(m) == [k \in {m[i][1] : i \in 1..Len(m)} |-> LET i == CHOOSE i \in 1..Len(m) : m[i][1] = k IN m[i][2]]
R(r) == IF r.nil THEN Nil ELSE [t |-> r.t, m |-> Fun(r.m)]
Det == /\ IsOp("call", "detect")
       /\ LET ds == [i \in 1..Len(Ev.ds) |-> [err |-> Ev.ds[i].err, res |-> R(Ev.ds[i].r)]]
              d == Detect(ds, 1, Nil) IN
          /\ Ev.err = d.err /\ R(Ev.r) = d.res
          /\ Ev.ran = [i \in 1..d.ran |-> i]
       /\ Ev.same /\ UNCHANGED tvars /\ Step
TNext == Dec \/ Enc \/ Set \/ Env \/ Det
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
