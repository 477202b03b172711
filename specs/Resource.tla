------------------------------ MODULE Resource ------------------------------
(* resource: the label codec as a scanner over bytes, and detection and merging   *)
(* of resources. A text is decoded to labels ("ok"), refused ("err"), or lies in    *)
(* a region where both are allowed ("grey": keys with odd characters, keys given     *)
(* twice, escapes of characters beyond ASCII).                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
WS == {9, 10, 12, 13, 32}
QU == 34
BS == 92
CM == 44
EQ == 61
MaxLen == 256
KeyByte(c) == c \in 33..126 \ {QU, CM, EQ}
Rng(q) == {q[i] : i \in 1..Len(q)}
(* --- the text without the blanks around it and the commas after it --- *)
Blank == WS \cup {11}
RECURSIVE TrimL(_), TrimR(_, _)
TrimL(t) == IF t # << >> /\ Head(t) \in Blank THEN TrimL(Tail(t)) ELSE t
TrimR(t, S) == IF t # << >> /\ t[Len(t)] \in S THEN TrimR(SubSeq(t, 1, Len(t) - 1), S) ELSE t
Trim(t) == TrimR(TrimL(t), Blank)
Bare(t) == TrimR(Trim(t), {CM})
(* --- a value: its bytes, where the text goes on, and whether it is one --- *)
Simple == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11) @@ (92 :> 92) @@ (34 :> 34)
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Oct(c) == IF c \in 48..55 THEN c - 48 ELSE -1
Bad == [st |-> "err", v |-> << >>, n |-> 0, u |-> 0]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
RECURSIVE HexNum(_, _, _, _)
HexNum(t, i, k, a) == IF k = 0 THEN a ELSE IF Hex(At(t, i)) < 0 THEN -1 ELSE HexNum(t, i + 1, k - 1, IF a > 1000 THEN 2000 ELSE a * 16 + Hex(At(t, i)))
RECURSIVE Val(_, _, _, _, _)
(* u counts what the length limit may count: characters as written *)
Val(t, i, acc, u, g) ==
  IF i > Len(t) THEN Bad
  ELSE LET c == t[i] IN
    IF c = QU THEN [st |-> IF g THEN "grey" ELSE "ok", v |-> acc, n |-> i + 1, u |-> u]
    ELSE IF c >= 128 \/ c = 10 THEN Bad
    ELSE IF c # BS THEN Val(t, i + 1, Append(acc, c), u + 1, g)
    ELSE LET e == At(t, i + 1) IN
      CASE e \in DOMAIN Simple -> Val(t, i + 2, Append(acc, Simple[e]), u + 1, g)
        [] e = 120 -> LET x == HexNum(t, i + 2, 2, 0) IN IF x < 0 THEN Bad ELSE Val(t, i + 4, Append(acc, x), u + 3, g)
        [] Oct(e) >= 0 -> IF Oct(At(t, i + 2)) < 0 \/ Oct(At(t, i + 3)) < 0 \/ Oct(e) > 3 THEN Bad
                          ELSE Val(t, i + 4, Append(acc, Oct(e) * 64 + Oct(t[i + 2]) * 8 + Oct(t[i + 3])), u + 3, g)
        [] e \in {117, 85} -> LET k == IF e = 117 THEN 4 ELSE 8 x == HexNum(t, i + 2, k, 0) IN
             IF x < 0 THEN Bad ELSE IF x < 128 THEN Val(t, i + 2 + k, Append(acc, x), u + 1 + k, g) ELSE Val(t, i + 2 + k, Append(acc, 0), u + 1 + k, TRUE)
        [] OTHER -> Bad
RECURSIVE SkipWS(_, _)
SkipWS(t, i) == IF i <= Len(t) /\ t[i] \in WS THEN SkipWS(t, i + 1) ELSE i
KeyEnds(t, i) == {j \in i..Len(t) - 1 : t[j] = EQ /\ t[j + 1] = QU}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Res(st, m) == [st |-> st, m |-> m]
(* labels are a sequence of <<key, value>> in the order of the text *)
RECURSIVE Labels(_, _, _)
Labels(t, i, acc) ==
  LET a == SkipWS(t, i) ends == KeyEnds(t, a) IN
  IF ends = {} THEN Res("err", << >>)
  ELSE LET j == Min(ends) key == SubSeq(t, a, j - 1) IN
    IF \E x \in Rng(key) : ~KeyByte(x) THEN Res("grey", << >>)
    ELSE IF key = << >> THEN Res("grey", << >>)
    ELSE IF Len(key) > MaxLen THEN Res("err", << >>)
    ELSE LET v == Val(t, j + 2, << >>, 0, FALSE) IN
      IF v.st # "ok" THEN Res(v.st, << >>)
      ELSE IF Len(v.v) > MaxLen THEN Res("err", << >>)
      ELSE LET b == SkipWS(t, v.n) acc2 == Append(acc, <<key, v.v>>) IN
        IF v.u > MaxLen \/ \E x \in Rng(acc) : x[1] = key THEN Res("grey", << >>)
        ELSE IF b > Len(t) THEN Res("ok", acc2)
        ELSE IF t[b] # CM THEN Res("err", << >>)
        ELSE Labels(t, b + 1, acc2)
Decode(t) == LET b == Bare(t) IN IF b = << >> THEN Res("ok", << >>) ELSE Labels(b, 1, << >>)
(* --- the encoder, for labels as a sequence of pairs in the order of keys --- *)
RECURSIVE Quote(_)
Quote(v) == IF v = << >> THEN << >> ELSE (IF Head(v) \in {QU, BS} THEN <<BS, Head(v)>> ELSE <<Head(v)>>) \o Quote(Tail(v))
RECURSIVE Encode(_)
Encode(m) == IF m = << >> THEN << >> ELSE m[1][1] \o <<EQ, QU>> \o Quote(m[1][2]) \o <<QU>> \o (IF Len(m) > 1 THEN <<CM>> ELSE << >>) \o Encode(Tail(m))
Nice(m) == \A i \in 1..Len(m) : /\ Len(m[i][1]) \in 1..MaxLen /\ Len(m[i][2]) <= MaxLen /\ \A x \in Rng(m[i][1]) : KeyByte(x)
                                /\ \A x \in Rng(m[i][2]) : x \in 32..126
(* --- merging: Nil is no resource; type "" is 0 --- *)
Nil == [t |-> -1, m |-> << >>]
Merge(a, b) == IF a = Nil THEN b ELSE IF b = Nil THEN a
               ELSE [t |-> IF a.t = 0 THEN b.t ELSE a.t, m |-> a.m @@ b.m]
(* detectors give [err |-> 0 or the error, res]; the result and how many ran *)
RECURSIVE Detect(_, _, _)
Detect(ds, i, acc) == IF i > Len(ds) THEN [err |-> 0, res |-> acc, ran |-> Len(ds)]
                      ELSE IF ds[i].err # 0 THEN [err |-> ds[i].err, res |-> Nil, ran |-> i]
                      ELSE Detect(ds, i + 1, Merge(acc, ds[i].res))
=============================================================================
