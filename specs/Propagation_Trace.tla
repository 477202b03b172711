------------------------- MODULE Propagation_Trace --------------------------
(* Binds Propagation.tla to recorded calls of the propagators                  *)
EXTENDS Propagation, TraceKit
tvars == <<hdr, obj>>
TInit == TraceInit0 /\ PInit /\ obj = << >>
Call(op) == IsOp("call", op) /\ UNCHANGED obj
Same == \A n \in 1..6 : Ev.h[n] = hdr[n]
Same2 == \A n \in 1..6 : Ev.h[n] = hdr'[n]
Res(want) == IF want.ok THEN Ev.ok /\ Ev.tid = want.tid /\ Ev.sid = want.sid /\ Ev.opt = want.opt /\ Ev.ts = want.ts
             ELSE ~Ev.ok /\ AllZero(Ev.tid) /\ AllZero(Ev.sid) /\ AllZero(Ev.opt) /\ Ev.ts = << >>
Set == Call("sethdr") /\ SetHdr(Ev.n, Ev.vs) /\ Same2 /\ Step
Write == Call("write") /\ WriteCtx(Ev.f, Ev.x) /\ Same2 /\ Step
(* several traceparent headers may also be refused *)
Read == /\ Call("read") /\ Same /\ UNCHANGED hdr
        /\ \/ Res(ReadCtx(Ev.f))
           \/ Ev.f = "tc" /\ Len(hdr[TP]) > 1 /\ Res(None)
        /\ Step
Strings == Call("strings") /\ UNCHANGED hdr /\ Res(TPRead(Ev.tp, Ev.st)) /\ Step
ToStrings == Call("tostrings") /\ UNCHANGED hdr /\ Ev.tp = TPWrite(Ev.x) /\ Ev.st = TSSend(Ev.x.ts) /\ Step
Bin == Call("bin") /\ UNCHANGED hdr /\ Ev.b = BinWrite(Ev.x) /\ Step
FromBin == Call("frombin") /\ UNCHANGED hdr /\ Ev.same /\ Res(BinRead(Ev.b)) /\ Step
TNext == Set \/ Write \/ Read \/ Strings \/ ToStrings \/ Bin \/ FromBin
TSpec == TInit /\ [][TNext]_<<tvars, tid, l>>
=============================================================================
