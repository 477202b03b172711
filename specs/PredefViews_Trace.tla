------------------------- MODULE PredefViews_Trace -------------------------
(* Binds PredefViews.tla to recorded requests and to the rows read from the    *)
(* predefined views.                                                            *)
EXTENDS PredefViews, TraceKit
Rng(s) == {s[i] : i \in 1..Len(s)}
TInit == TraceInit0 /\ PInit
Reg == IsOp("call", "register") /\ Ev.ok /\ Register(Rng(Ev.vs)) /\ Step
Grp == IsOp("call", "group") /\ Ev.ok /\ Len(Ev.vs) = Cardinality(Rng(Ev.vs)) /\ Rng(Ev.vs) = Groups[Ev.g] /\ Register(Groups[Ev.g]) /\ Step
Unr == IsOp("call", "unregister") /\ Unregister(Rng(Ev.vs)) /\ Step
Beg == IsOp("call", "begin") /\ Begin(Ev.id, Ev.kind, Ev.meth) /\ Step
Fin == IsOp("call", "end") /\ End(Ev.id, Ev.st, Ev) /\ Step
(* rows as read: tags t, and what the data say *)
Obs(agg, r) == IF agg = "count" THEN [n |-> r.n, sum |-> Zero, min |-> Zero, max |-> Zero, b |-> << >>]
               ELSE [n |-> r.n, sum |-> r.sum, min |-> r.min, max |-> r.max,
                     b |-> [i \in {x[1] : x \in Rng(r.b)} |-> (CHOOSE x \in Rng(r.b) : x[1] = i)[2]]]
SameRows(v, rs) ==
  /\ Len(rs) = Cardinality(DOMAIN rows[v])
  /\ \A i \in 1..Len(rs) : /\ rs[i].agg = (IF Views[v].agg = "count" THEN "count" ELSE "dist")
                           /\ Rng(rs[i].t) \in DOMAIN rows[v] /\ rows[v][Rng(rs[i].t)] = Obs(Views[v].agg, rs[i])
                           /\ Views[v].agg # "count" => rs[i].nb = Len(Bounds(Views[v].agg)) + 1
See == /\ IsOp("call", "read")
       /\ {x.v : x \in Rng(Ev.views)} = reg
       /\ \A i \in 1..Len(Ev.views) : SameRows(Ev.views[i].v, Ev.views[i].rows)
       /\ UNCHANGED pvars /\ Step
TNext == Reg \/ Grp \/ Unr \/ Beg \/ Fin \/ See
TSpec == TInit /\ [][TNext]_<<pvars, tid, l>>
=============================================================================
