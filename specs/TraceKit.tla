------------------------------ MODULE TraceKit ------------------------------
(* Shared machinery of the *_Trace modules. A trace file (ZV_TRACE, one JSON   *)
(* object per line) holds many recorded behaviours; one TLC run validates all. *)
(* tid = which behaviour, l = position of the next event to be explained.      *)
(* Register tid holds the longest explained prefix; POSTCONDITION reports the  *)
(* behaviours the specification cannot explain.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.ZV_TRACE)
NT     == Len(Traces)
Prop   == IOEnv.ZV_PROP
Evs    == Traces[tid].ev
Ev     == Evs[l]
More   == l <= Len(Evs)
Is(e)  == More /\ Ev.e = e
IsOp(e, op) == More /\ Ev.e = e /\ Ev.op = op
NextIs(e) == l <= Len(Evs) /\ Ev.e = e
Step   == l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED <<tid, l>>
TraceInit0 == tid \in 1..NT /\ l = 1

ASSUME \A i \in 1..NT : TLCSet(i, 0)

(* CONSTRAINT: records progress; an accepted behaviour is not explored further *)
Mark == LET m == TLCGet(tid) IN
        IF m > Len(Evs) THEN FALSE
        ELSE IF l > m THEN TLCSet(tid, l) ELSE TRUE

Rejected == {i \in 1..NT : TLCGet(i) # Len(Traces[i].ev) + 1}
TracePost == /\ \A i \in Rejected : PrintT(<<"REJ", i, TLCGet(i)>>)
             /\ PrintT(<<"POST", NT, Cardinality(Rejected)>>)
=============================================================================
