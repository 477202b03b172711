-------------------------- MODULE TestExporter_Trace --------------------------
(* Binds TestExporter.tla to recorded executions; texts come as byte sequences. The    *)
(* data of an export by ReadAndExport are those of the producers and of what has been    *)
(* recorded before (base holds what was recorded, by label value).                        *)
EXTENDS TestExporter, TraceKit
VARIABLE rec
tvars == <<pts, rec>>
TInit == TraceInit0 /\ EInit /\ rec = << >>
D(data) == [i \in 1..Len(data) |-> <<data[i].n, data[i].l, data[i].v>>]
Exp == IsOp("call", "export") /\ Export(D(Ev.d)) /\ UNCHANGED rec /\ Step
Rec == IsOp("call", "record") /\ rec' = [x \in DOMAIN rec \cup {Ev.l} |-> IF x = Ev.l THEN (IF x \in DOMAIN rec THEN rec[x] ELSE 0) + Ev.v ELSE rec[x]]
       /\ UNCHANGED pts /\ Step
RECURSIVE List(_)
List(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o List(S \ {x})
Rae == IsOp("call", "rae") /\ LET vs == List(DOMAIN rec) IN
         Export(D(Ev.d) \o [i \in 1..Len(vs) |-> <<Ev.view, vs[i], rec[vs[i]]>>]) /\ UNCHANGED rec /\ Step
Get == IsOp("call", "get") /\ Ev.r = Point(Ev.n, Ev.l) /\ UNCHANGED tvars /\ Step
TNext == Exp \/ Rec \/ Rae \/ Get
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
