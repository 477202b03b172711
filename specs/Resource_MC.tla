----------------------------- MODULE Resource_MC -----------------------------
(* Texts, label maps and lists of detectors grow step by step; the laws of the   *)
(* codec and of detection are checked in every state.                             *)
EXTENDS Resource
CONSTANTS MaxText, Alphabet, KeyAl, ValAl, MaxVal, MaxLab, MaxDet
VARIABLES mode, text, labs, dets
mcv == <<mode, text, labs, dets>>
MCInit == mode \in {"text", "labs", "dets"} /\ text = << >> /\ labs = << >> /\ dets = << >>
(* resources over two labels with two values and two types *)
Ress == {Nil} \cup [t : 0..2, m : UNION {[d -> {1, 2}] : d \in SUBSET {1, 2}}]
TypeChar == mode = "text" /\ Len(text) < MaxText /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED <<mode, labs, dets>>
Keys == {<<k>> : k \in KeyAl}
AddLabel == mode = "labs" /\ Len(labs) < MaxLab /\ \E k \in Keys : (\A i \in 1..Len(labs) : labs[i][1][1] < k[1]) /\ labs' = Append(labs, <<k, << >>>>) /\ UNCHANGED <<mode, text, dets>>
GrowVal == mode = "labs" /\ labs # << >> /\ Len(labs[Len(labs)][2]) < MaxVal
           /\ \E c \in ValAl : labs' = [labs EXCEPT ![Len(labs)][2] = Append(@, c)] /\ UNCHANGED <<mode, text, dets>>
AddDet == mode = "dets" /\ Len(dets) < MaxDet /\ (\/ \E r \in Ress : dets' = Append(dets, [err |-> 0, res |-> r])
                                                   \/ dets' = Append(dets, [err |-> Len(dets) + 1, res |-> 0])) /\ UNCHANGED <<mode, text, labs>>
MCNext == TypeChar \/ AddLabel \/ GrowVal \/ AddDet
MCSpec == MCInit /\ [][MCNext]_mcv
RoundTrip == mode = "labs" => Nice(labs) /\ Decode(Encode(labs)) = Res("ok", labs)
(* blanks and commas after an encoding do not matter; what is cut off is noticed *)
Padded == mode = "labs" /\ labs # << >> =>
  /\ Decode(<<32, 9>> \o Encode(labs) \o <<CM, CM, 32>>) = Res("ok", labs)
  /\ LET e == Encode(labs) last == Len(e) - Len(Encode(<<labs[Len(labs)]>>)) IN
     \A i \in last + 1..Len(e) - 1 : (SubSeq(e, i, i) # <<CM>> /\ Bare(SubSeq(e, 1, i)) = SubSeq(e, 1, i)) => Decode(SubSeq(e, 1, i)).st = "err"
(* every text has a verdict; what is accepted means what its encoding means; what is refused holds no labels *)
Total == mode = "text" => LET d == Decode(text) IN
  /\ d.st \in {"ok", "err", "grey"} /\ (d.st # "ok" => d.m = << >>)
  /\ (d.st = "ok" /\ Nice(d.m)) => Decode(Encode(d.m)) = d
(* the first to say something wins *)
FirstWins == mode = "dets" => LET d == Detect(dets, 1, Nil) errs == {i \in 1..Len(dets) : dets[i].err # 0} IN
  IF errs # {} THEN d.err = dets[Min(errs)].err /\ d.ran = Min(errs) /\ d.res = Nil
  ELSE /\ d.ran = Len(dets) /\ (d.res = Nil <=> \A i \in 1..Len(dets) : dets[i].res = Nil)
       /\ d.res # Nil => LET rs == {i \in 1..Len(dets) : dets[i].res # Nil}
                           ts == {i \in rs : dets[i].res.t # 0} IN
          /\ d.res.t = (IF ts = {} THEN 0 ELSE dets[Min(ts)].res.t)
          /\ DOMAIN d.res.m = UNION {DOMAIN dets[i].res.m : i \in rs}
          /\ \A k \in DOMAIN d.res.m : d.res.m[k] = dets[Min({i \in rs : k \in DOMAIN dets[i].res.m})].res.m[k]
(* nesting does not matter *)
Assoc == mode = "dets" /\ Len(dets) = 3 /\ (\A i \in 1..3 : dets[i].err = 0) =>
  Merge(Merge(dets[1].res, dets[2].res), dets[3].res) = Merge(dets[1].res, Merge(dets[2].res, dets[3].res))
=============================================================================
