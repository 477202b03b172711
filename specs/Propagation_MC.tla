--------------------------- MODULE Propagation_MC ----------------------------
(* Small instance: one byte trace IDs and span IDs. Round trips over all contexts *)
(* and older headers; every string over a small alphabet reads as nothing or as a *)
(* context that the same format can write.                                        *)
EXTENDS Propagation
CONSTANTS IDs, Opts, Alpha, MaxStr, TSLists, MaxOps
VARIABLES last, n
mcv == <<hdr, obj, last, n>>
One == 1
MC_TSLen == 7
MC_SDLen == 12
MCOpts == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 254>>}
MCLists == {<< >>, << <<<<97>>, <<49>>>> >>, << <<<<97>>, <<32, 49>>>>, <<<<98>>, <<49>>>> >>, << <<<<97>>, <<49, 50>>>>, <<<<98>>, <<49>>>> >>}
Ctxs == {[tid |-> <<a>>, sid |-> <<b>>, opt |-> o, ts |-> t] : a, b \in IDs \ {0}, o \in Opts, t \in TSLists}
MCInit == PInit /\ obj = << >> /\ last = [f |-> "none"] /\ n = 0
Junk == {<<>>, << <<120>> >>, << <<48, 48>>, <<49>> >>}
MCNext == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED obj
          /\ \/ \E f \in Formats, x \in Ctxs : WriteCtx(f, x) /\ last' = [f |-> f, x |-> x]
             \/ \E h \in 1..6, v \in Junk : SetHdr(h, v) /\ last' = [f |-> "none"]
MCSpec == MCInit /\ [][MCNext]_mcv
RoundTrip == last.f # "none" => ReadCtx(last.f) = Kept(last.f, last.x)
Binary == n = 0 => \A x \in Ctxs : BinRead(BinWrite(x)) = Kept("bin", x)
(* n = 0: all strings *)
Strs == UNION {[1..m -> Alpha] : m \in 0..MaxStr}
Canon(r, w) == r.ok => LET y == [tid |-> r.tid, sid |-> r.sid, opt |-> r.opt, ts |-> r.ts] IN Len(r.tid) = 1 /\ Len(r.sid) = 1 /\ w = y
TPStrs == {<<48, 48, 45, a, b, 45>> \o q : a, b \in {48, 49}, q \in Strs} \cup {<<a, b, 45, 48, 49, 45, 48, 49, 45, 48>> \o q : a, b \in {48, 49, 102, 70}, q \in Strs}
TPWell(q) == /\ Len(q) >= 11 /\ q[3] = 45 /\ q[6] = 45 /\ q[9] = 45 /\ (Len(q) = 11 \/ (Len(q) > 11 /\ q[12] = 45 /\ ~(q[1] = 48 /\ q[2] = 48)))
             /\ \A i \in {1, 2, 4, 5, 7, 8, 10, 11} : HexVal(q[i]) >= 0
             /\ ~(q[1] \in {102, 70} /\ q[2] \in {102, 70}) /\ ~(q[4] = 48 /\ q[5] = 48) /\ ~(q[7] = 48 /\ q[8] = 48)
SDStrs == {<<48, 49, 47>> \o q : q \in Strs} \cup {<<48, 49, 47, 49, 59, 111, 61>> \o q : q \in Strs} \cup {<<48, 49, 47, 49, 59>> \o q : q \in Strs}
Total == n = 0 =>
  /\ \A q \in TPStrs : TPRead(q, << >>).ok <=> TPWell(q)
  /\ \A q \in SDStrs : SDRead(q).ok => LET r == SDRead(q) IN SDRead(SDWrite(r)) = r
  /\ \A q \in Strs : B3ID(q, 1)[1] => B3ID(Hex(B3ID(q, 1)[2]), 1) = B3ID(q, 1)
  /\ \A q \in Strs : LET t == TSRead(q) IN TSRead(TSText(t)) = t
Decimal == n = 0 => \A v \in 0..300 : LET b == <<v \div 256, v % 256>> IN UnDec(Dec(b), 2) = <<TRUE, b>> /\ (UnDec(Dec(b), 1)[1] <=> v < 256)
=============================================================================
