----------------------------- MODULE Propagation -----------------------------
(* The trace context formats: binary, B3, W3C tracecontext, Stackdriver, as      *)
(* writers and readers of byte strings, and a request's headers being written    *)
(* and read. Strings are sequences of bytes; options are four bytes, big endian. *)
EXTENDS TraceState
VARIABLE hdr   \* header number -> sequence of values
TidLen == 16
SidLen == 8
MaxTSLen == 512
MaxSDLen == 200
TP == 1
TS == 2
BT == 3
BS == 4
BF == 5
XC == 6
None == [ok |-> FALSE]
Ctx(t, s, o, ts) == [ok |-> TRUE, tid |-> t, sid |-> s, opt |-> o, ts |-> ts]
Zeros(n) == [i \in 1..n |-> 0]
AllZero(q) == \A i \in 1..Len(q) : q[i] = 0
LowOpt(b) == <<0, 0, 0, b>>
Sampled(o) == o[4] % 2

(* --- text --- *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHex(q) == Len(q) % 2 = 0 /\ \A i \in 1..Len(q) : HexVal(q[i]) >= 0
UnHex(q) == [i \in 1..(Len(q) \div 2) |-> 16 * HexVal(q[2 * i - 1]) + HexVal(q[2 * i])]
HexChar(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Hex(b) == [i \in 1..(2 * Len(b)) |-> HexChar(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
Split(q, c) == FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, << >>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)], << << >> >>, q)
Join(qs, c) == IF qs = << >> THEN << >> ELSE FoldLeft(LAMBDA acc, x : acc \o <<c>> \o x, qs[1], Tail(qs))
Index(q, c) == LET S == {i \in 1..Len(q) : q[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* decimal digits of a big endian byte string and back; n bytes *)
IsDec(q) == q # << >> /\ \A i \in 1..Len(q) : q[i] \in 48..57
Carry(q, mul, add, base) ==  \* little endian q * mul + add, digits below base
  LET r == FoldLeft(LAMBDA acc, x : [d |-> Append(acc.d, (x * mul + acc.c) % base), c |-> (x * mul + acc.c) \div base], [d |-> << >>, c |-> add], q)
      Rest[c \in 0..(mul * base + base)] == IF c = 0 THEN << >> ELSE <<c % base>> \o Rest[c \div base]
  IN r.d \o Rest[r.c]
RECURSIVE TrimZ(_)
TrimZ(q) == IF q # << >> /\ q[Len(q)] = 0 THEN TrimZ(SubSeq(q, 1, Len(q) - 1)) ELSE q
UnDec(q, n) == LET v == TrimZ(FoldLeft(LAMBDA acc, x : Carry(acc, 10, x - 48, 256), << >>, q)) IN
               IF Len(v) > n THEN <<FALSE>> ELSE <<TRUE, Reverse(v \o Zeros(n - Len(v)))>>
Dec(b) == LET v == TrimZ(FoldLeft(LAMBDA acc, x : Carry(acc, 256, x, 10), << >>, b)) IN
          IF v = << >> THEN <<48>> ELSE [i \in 1..Len(v) |-> 48 + v[Len(v) + 1 - i]]

(* --- binary --- *)
BinWrite(x) == <<0, 0>> \o x.tid \o <<1>> \o x.sid \o <<2, x.opt[4]>>
BinRead(b) ==
  IF Len(b) < 2 + TidLen \/ b[1] # 0 \/ b[2] # 0 THEN None
  ELSE LET tid == SubSeq(b, 3, 2 + TidLen)
           r1 == SubSeq(b, 3 + TidLen, Len(b))
           has == Len(r1) >= 1 + SidLen /\ r1[1] = 1
           sid == IF has THEN SubSeq(r1, 2, 1 + SidLen) ELSE Zeros(SidLen)
           r2 == IF has THEN SubSeq(r1, 2 + SidLen, Len(r1)) ELSE r1
       IN Ctx(tid, sid, LowOpt(IF Len(r2) >= 2 /\ r2[1] = 2 THEN r2[2] ELSE 0), << >>)

(* --- B3 --- *)
Pad(b, n) == Zeros(n - Len(b)) \o b
B3ID(q, n) == IF q # << >> /\ IsHex(q) /\ Len(q) <= 2 * n THEN <<TRUE, Pad(UnHex(q), n)>> ELSE <<FALSE>>
True == <<116, 114, 117, 101>>
B3Read(t, s, f) ==
  LET a == B3ID(t, TidLen) b == B3ID(s, SidLen) IN
  IF ~a[1] THEN None ELSE IF ~b[1] THEN None
  ELSE Ctx(a[2], b[2], LowOpt(IF f = <<49>> \/ f = True THEN 1 ELSE 0), << >>)

(* --- W3C --- *)
OWS == {32, 9}
Trim(q) == LET S == {i \in 1..Len(q) : q[i] \notin OWS} IN
  IF S = {} THEN << >> ELSE SubSeq(q, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : j <= i)
(* an invalid list is dropped whole *)
TSRead(h) ==
  IF h = << >> THEN << >>
  ELSE LET raw == Split(h, 44)
           ms == [i \in 1..Len(raw) |-> Trim(raw[i])]
           kv == [i \in 1..Len(ms) |-> Split(ms[i], 61)]
           len == FoldLeft(LAMBDA a, m : a + Len(m), Len(ms) - 1, ms)
       IN IF \/ \E i \in 1..Len(ms) : ms[i] = << >>
             \/ len > MaxTSLen
             \/ \E i \in 1..Len(kv) : Len(kv[i]) # 2
          THEN << >>
          ELSE LET es == [i \in 1..Len(kv) |-> <<kv[i][1], kv[i][2]>>] IN
               IF NewErr(<< >>, es, KeyOK, ValOK) THEN << >> ELSE es
TSText(ts) == Join([i \in 1..Len(ts) |-> ts[i][1] \o <<61>> \o ts[i][2]], 44)
TSSend(ts) == LET q == TSText(ts) IN IF Len(q) <= MaxTSLen THEN q ELSE << >>
TPRead(h, ts) ==
  LET p == Split(h, 45) IN
  IF Len(p) < 4 THEN None
  ELSE IF ~(Len(p[1]) = 2 /\ IsHex(p[1])) THEN None
  ELSE LET v == UnHex(p[1])[1] IN
    IF \/ v = 255
       \/ v = 0 /\ Len(p) # 4
       \/ ~(Len(p[2]) = 2 * TidLen /\ IsHex(p[2]))
       \/ ~(Len(p[3]) = 2 * SidLen /\ IsHex(p[3]))
       \/ ~(Len(p[4]) = 2 /\ IsHex(p[4]))
    THEN None
    ELSE LET t == UnHex(p[2]) s == UnHex(p[3]) IN
         IF AllZero(t) \/ AllZero(s) THEN None ELSE Ctx(t, s, LowOpt(UnHex(p[4])[1]), TSRead(ts))
TPWrite(x) == <<48, 48, 45>> \o Hex(x.tid) \o <<45>> \o Hex(x.sid) \o <<45>> \o Hex(<<x.opt[4]>>)

(* --- Stackdriver --- *)
SDRead(h) ==
  IF h = << >> \/ Len(h) > MaxSDLen THEN None
  ELSE LET sl == Index(h, 47) IN IF sl = 0 THEN None
  ELSE LET t == SubSeq(h, 1, sl - 1) r == SubSeq(h, sl + 1, Len(h)) sc == Index(r, 59)
           s == IF sc = 0 THEN r ELSE SubSeq(r, 1, sc - 1)
           o == IF sc = 0 THEN << >> ELSE SubSeq(r, sc + 1, Len(r)) IN
    IF ~(Len(t) = 2 * TidLen /\ IsHex(t)) \/ ~IsDec(s) THEN None
    ELSE LET sid == UnDec(s, SidLen) IN IF ~sid[1] THEN None
    ELSE IF ~(Len(o) >= 2 /\ o[1] = 111 /\ o[2] = 61) THEN Ctx(UnHex(t), sid[2], LowOpt(0), << >>)
    ELSE LET d == SubSeq(o, 3, Len(o)) IN IF ~IsDec(d) THEN None
    ELSE LET ov == UnDec(d, 4) IN IF ~ov[1] THEN None ELSE Ctx(UnHex(t), sid[2], ov[2], << >>)
SDWrite(x) == Hex(x.tid) \o <<47>> \o Dec(x.sid) \o <<59, 111, 61>> \o Dec(x.opt)

(* --- requests --- *)
PInit == hdr = [n \in 1..6 |-> << >>]
SetHdr(n, vs) == hdr' = [hdr EXCEPT ![n] = vs]
First(n) == IF hdr[n] = << >> THEN << >> ELSE hdr[n][1]
Formats == {"b3", "tc", "sd"}
WriteCtx(f, x) == hdr' =
  CASE f = "b3" -> [hdr EXCEPT ![BT] = <<Hex(x.tid)>>, ![BS] = <<Hex(x.sid)>>, ![BF] = <<<<48 + Sampled(x.opt)>>>>]
    [] f = "tc" -> [hdr EXCEPT ![TP] = <<TPWrite(x)>>, ![TS] = IF TSSend(x.ts) = << >> THEN << >> ELSE <<TSSend(x.ts)>>]
    [] f = "sd" -> [hdr EXCEPT ![XC] = <<SDWrite(x)>>]
ReadCtx(f) ==
  CASE f = "b3" -> B3Read(First(BT), First(BS), First(BF))
    [] f = "tc" -> TPRead(Join(hdr[TP], 44), Join(hdr[TS], 44))
    [] f = "sd" -> SDRead(First(XC))
(* what a round trip keeps *)
Kept(f, x) == CASE f = "b3" -> Ctx(x.tid, x.sid, LowOpt(Sampled(x.opt)), << >>)
                [] f = "tc" -> Ctx(x.tid, x.sid, LowOpt(x.opt[4]), IF Len(TSText(x.ts)) <= MaxTSLen THEN x.ts ELSE << >>)
                [] f = "sd" -> Ctx(x.tid, x.sid, x.opt, << >>)
                [] f = "bin" -> Ctx(x.tid, x.sid, LowOpt(x.opt[4]), << >>)
Valid(x) == ~AllZero(x.tid) /\ ~AllZero(x.sid)
=============================================================================
