--------------------------- MODULE PredefViews_MC ---------------------------
(* Requests of all kinds, with the views coming and going while they run.        *)
EXTENDS PredefViews
CONSTANTS Kinds, Meths, Durs, MaxReq, MaxReg
SmallDurs == {<<0, 0>>, <<1, 0>>}
VARIABLES no, regs, ended, begun
mcv == <<pvars, no, regs, ended, begun>>
Statuses(kind) == IF kind \in {"gc", "gs"} THEN {0, 5} ELSE {200, 404}
MCInit == PInit /\ no = 0 /\ regs = 0 /\ ended = [v \in DOMAIN Views |-> << >>] /\ begun = [v \in DOMAIN Views |-> 0]
MCReg == /\ regs < MaxReg /\ regs' = regs + 1
         /\ \E k \in Kinds : \/ /\ Register(Groups[k] \ {}) /\ ended' = [v \in DOMAIN Views |-> IF v \in Groups[k] \ reg THEN << >> ELSE ended[v]]
                                /\ begun' = [v \in DOMAIN Views |-> IF v \in Groups[k] \ reg THEN 0 ELSE begun[v]]
                             \/ Unregister(Groups[k]) /\ UNCHANGED <<ended, begun>>
         /\ UNCHANGED no
MCBeg == /\ no < MaxReq /\ no' = no + 1
         /\ \E k \in Kinds, m \in Meths : /\ Begin(no + 1, k, m)
              /\ begun' = [v \in DOMAIN Views |-> IF Views[v].kind = k THEN begun[v] + 1 ELSE begun[v]]
         /\ UNCHANGED <<regs, ended>>
MCEnd == /\ \E id \in DOMAIN live, d \in Durs, body \in BOOLEAN :
              \E st \in Statuses(live[id].kind) :
              /\ End(id, st, [sent |-> d, recv |-> d, dur |-> d, sn |-> 1, rn |-> 2, body |-> body])
              /\ ended' = [v \in DOMAIN Views |-> IF Views[v].kind = live[id].kind THEN Append(ended[v], <<st, body>>) ELSE ended[v]]
         /\ UNCHANGED <<no, regs, begun>>
MCNext == MCReg \/ MCBeg \/ MCEnd
MCSpec == MCInit /\ [][MCNext]_mcv
RECURSIVE SumF(_, _)
SumF(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + SumF(f, s \ {x})
Total(v) == SumF([k \in DOMAIN rows[v] |-> rows[v][k].n], DOMAIN rows[v])
(* every request that ended is counted once by each view of completed requests, every one that began once by those of started ones *)
Once == \A v \in reg : LET d == Views[v] IN
          CASE d.m = "begun" -> Total(v) = begun[v]
            [] d.m = "none" -> Total(v) = 0
            [] d.kind = "hs" /\ d.m = "rb" -> Total(v) = Cardinality({i \in 1..Len(ended[v]) : ended[v][i][2]})
            [] OTHER -> Total(v) = Len(ended[v])
Filled == \A v \in reg : \A k \in DOMAIN rows[v] : LET a == rows[v][k] IN
            /\ a.n > 0 /\ Cardinality(k) = Cardinality(Views[v].keys)
            /\ Views[v].agg # "count" => /\ SumF(a.b, DOMAIN a.b) = a.n /\ ~Lt(a.max, a.min)
                                         /\ \A i \in DOMAIN a.b : i \in 0..Len(Bounds(Views[v].agg)) /\ a.b[i] > 0
                                         /\ Bucket(Bounds(Views[v].agg), a.min) \in DOMAIN a.b /\ Bucket(Bounds(Views[v].agg), a.max) \in DOMAIN a.b
Increasing == no = 0 => \A v \in DOMAIN Views : LET b == Bounds(Views[v].agg) IN \A i \in 1..Len(b) - 1 : Lt(b[i], b[i + 1])
(* the view of methods and statuses refines the one of methods *)
Agree == \A x \in {<<Gc \o "completed_rpcs", Gc \o "roundtrip_latency">>, <<Gs \o "completed_rpcs", Gs \o "server_latency">>} :
           x[1] \in reg /\ x[2] \in reg /\ ended[x[1]] = ended[x[2]] => Total(x[1]) = Total(x[2])
=============================================================================
