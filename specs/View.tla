------------------------------- MODULE View ---------------------------------
(* Views, measurements and meters (stats, stats/view): what a meter holds for  *)
(* each registered view, how its worker handles the commands and measurements  *)
(* queued for it, its reporting schedule, its life, and how views are shown as *)
(* metrics. Numbers that the implementation keeps as floats are doubled here.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS DefPeriod
VARIABLES now, mt, out     \* the clock (ms), the meters, results of handled commands by thread
vvars == <<now, mt, out>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
MinSeq(q) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, q[1], q)
MaxSeq(q) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, q[1], q)

(* ---- view definitions: [n, desc, m, mn, md, mt, mu, agg, b, keys, bad] ----- *)
(* m = 0: no measure; agg = "": no aggregation; bad: unacceptable name          *)
Less(a, b) == a < b
Canon(d) == [d EXCEPT !.n = IF @ = "" THEN d.mn ELSE @, !.desc = IF @ = "" THEN d.md ELSE @,
                      !.keys = SortSeq(@, Less),
                      !.b = LET s == SortSeq(@, Less) IN IF s # << >> /\ s[1] = 0 THEN SelectSeq(s, LAMBDA x : x > 0) ELSE s]
Valid(d) == d.m # 0 /\ d.agg # "" /\ ~d.bad /\ \A i \in 1..Len(d.b) : d.b[i] >= 0
SameView(c, d) == c.n = d.n /\ c.m = d.m /\ c.agg = d.agg /\ c.b = d.b

(* ---- rows: from a row key (sequence of <<tag key, value>>) to its samples --- *)
(* a sample is [v |-> doubled value, a |-> attachments (0: none), t |-> time]    *)
RowKey(keys, tags) ==
  LET has(k) == k \in DOMAIN tags /\ tags[k] # ""
      ks == SelectSeq(keys, has)
  IN [i \in 1..Len(ks) |-> <<ks[i], tags[ks[i]]>>]
AddSample(view, tags, v, a, t) ==
  LET k == RowKey(view.def.keys, tags)
      r == view.rows
      s == [v |-> v, a |-> a, t |-> t]
  IN [view EXCEPT !.rows = Put(r, k, IF k \in DOMAIN r THEN Append(r[k], s) ELSE <<s>>)]
AddAll(view, e) ==   \* e: a queued record call
  FoldLeft(LAMBDA vw, x : IF x[1] = vw.def.m THEN AddSample(vw, e.tags, x[2], e.a, e.t) ELSE vw, view, e.ms)

(* ---- what the samples of a row aggregate to -------------------------------- *)
Vals(s) == [i \in 1..Len(s) |-> s[i].v]
Bucket(b, v) == 1 + Cardinality({i \in 1..Len(b) : b[i] <= v})
Exemplar(b, s, k) ==
  LET S == {i \in 1..Len(s) : s[i].a # 0 /\ Bucket(b, s[i].v) = k}
  IN IF S = {} THEN << >> ELSE LET i == CHOOSE j \in S : \A x \in S : x <= j IN <<s[i].v, s[i].a, s[i].t>>
BCounts(b, s) == [k \in 1..Len(b)+1 |-> Cardinality({i \in 1..Len(s) : Bucket(b, s[i].v) = k})]
BExem(b, s) == [k \in 1..Len(b)+1 |-> Exemplar(b, s, k)]
SqDev(s) == LET v == Vals(s) n == Len(s) IN n * SumSeq([i \in 1..n |-> v[i] * v[i]]) - SumSeq(v) * SumSeq(v)
DataOf(d, s) ==
  CASE d.agg = "count" -> [ty |-> "count", n |-> Len(s), st |-> s[1].t]
    [] d.agg = "sum"   -> [ty |-> "sum", s |-> SumSeq(Vals(s)), st |-> s[1].t]
    [] d.agg = "last"  -> [ty |-> "last", v |-> s[Len(s)].v, st |-> -1]
    [] d.agg = "dist"  -> [ty |-> "dist", n |-> Len(s), s |-> SumSeq(Vals(s)), mn |-> MinSeq(Vals(s)), mx |-> MaxSeq(Vals(s)),
                           q |-> SqDev(s), b |-> BCounts(d.b, s), ex |-> BExem(d.b, s), st |-> s[1].t]
(* a list of [tags, d] shows exactly the rows *)
RowsOK(d, rows, r) == /\ Len(r) = Cardinality(DOMAIN rows)
                      /\ \A k \in DOMAIN rows : \E i \in 1..Len(r) : r[i].tags = k /\ r[i].d = DataOf(d, rows[k])

(* ---- a view as a metric ----------------------------------------------------- *)
UnitOf(d) == IF d.agg = "count" THEN "1" ELSE IF d.mu \in {"1", "ms", "By"} THEN d.mu ELSE "1"
TypeOf(d) == CASE d.agg = "count" -> "CumulativeInt64"
               [] d.agg = "sum" -> IF d.mt = "i" THEN "CumulativeInt64" ELSE "CumulativeFloat64"
               [] d.agg = "last" -> IF d.mt = "i" THEN "GaugeInt64" ELSE "GaugeFloat64"
               [] d.agg = "dist" -> "CumulativeDistribution"
LabelVals(keys, k) == [i \in 1..Len(keys) |->
  IF \E j \in 1..Len(k) : k[j][1] = keys[i] THEN <<1, (CHOOSE x \in Rng(k) : x[1] = keys[i])[2]>> ELSE <<0, "">>]
PointOf(d, s) ==
  CASE d.agg = "count" -> [ty |-> "i", v |-> 2 * Len(s)]
    [] d.agg = "sum" -> [ty |-> d.mt, v |-> SumSeq(Vals(s))]
    [] d.agg = "last" -> [ty |-> d.mt, v |-> s[Len(s)].v]
    [] d.agg = "dist" -> [ty |-> "d", n |-> Len(s), s |-> SumSeq(Vals(s)), q |-> SqDev(s), b |-> BCounts(d.b, s),
                          bd |-> d.b, ex |-> BExem(d.b, s)]
SeriesOK(d, k, s, x, at) == x.lv = LabelVals(d.keys, k) /\ x.pt = PointOf(d, s) /\ x.np = 1 /\ x.at = at
                            /\ x.st = (IF d.agg = "last" THEN -1 ELSE s[1].t)
MetricOK(view, x, at, rs) ==
  LET d == view.def rows == view.rows IN
  /\ x.n = d.n /\ x.desc = d.desc /\ x.unit = UnitOf(d) /\ x.ty = TypeOf(d) /\ x.keys = d.keys /\ x.res \in rs
  /\ Len(x.ts) = Cardinality(DOMAIN rows)
  /\ \A k \in DOMAIN rows : \E i \in 1..Len(x.ts) : SeriesOK(d, k, rows[k], x.ts[i], at)
ReadOK(views, r, at, rs) ==
  LET S == {n \in DOMAIN views : views[n].rows # << >>} IN
  /\ Len(r) = Cardinality(S)
  /\ \A n \in S : \E i \in 1..Len(r) : MetricOK(views[n], r[i], at, rs)

(* ---- meters ------------------------------------------------------------------ *)
Idle == [k |-> "idle", left |-> << >>, cur |-> "", pend |-> {}, th |-> 0]
NewM == [st |-> "new", stopReq |-> FALSE, q |-> << >>, w |-> Idle, views |-> << >>, exps |-> {},
         period |-> DefPeriod, next |-> now + DefPeriod, res |-> 0]
Create(m) == m \notin DOMAIN mt /\ mt' = Put(mt, m, NewM) /\ UNCHANGED <<now, out>>
Running(m) == mt[m].st = "run"
StartM(m) == mt' = [mt EXCEPT ![m].st = IF @ = "new" THEN "run" ELSE @] /\ UNCHANGED <<now, out>>
StopReq(m) == mt' = [mt EXCEPT ![m].stopReq = TRUE] /\ UNCHANGED <<now, out>>
Die(m) == /\ mt[m].st # "dead" /\ mt[m].stopReq /\ mt[m].w.k = "idle"
          /\ mt' = [mt EXCEPT ![m].st = "dead", ![m].q = << >>] /\ UNCHANGED <<now, out>>
Enqueue(m, x) == mt[m].st # "dead" /\ mt' = [mt EXCEPT ![m].q = Append(@, x)]
Uses(m, ms) == \E n \in DOMAIN mt[m].views : \E i \in 1..Len(ms) : ms[i][1] = mt[m].views[n].def.m

(* one worker per meter handles one command after the other *)
Ready(m) == Running(m) /\ mt[m].w.k = "idle" /\ mt[m].q # << >>
HandleRecord(m) ==
  /\ Ready(m) /\ Head(mt[m].q).k = "rec"
  /\ mt' = [mt EXCEPT ![m].q = Tail(@), ![m].views = [n \in DOMAIN @ |-> AddAll(@[n], Head(mt[m].q))]]
  /\ UNCHANGED <<now, out>>
RegOne(acc, d) ==   \* registering one (canonical) view: acc = [views, err]
  IF d.n \in DOMAIN acc.views
  THEN [acc EXCEPT !.err = @ \/ ~SameView(acc.views[d.n].def, d)]
  ELSE [acc EXCEPT !.views = Put(@, d.n, [def |-> d, start |-> now, rows |-> << >>])]
Register(views, ds) ==
  IF \E i \in 1..Len(ds) : ~Valid(Canon(ds[i])) THEN [views |-> views, err |-> TRUE]
  ELSE FoldLeft(LAMBDA acc, d : RegOne(acc, Canon(d)), [views |-> views, err |-> FALSE], ds)
View0(m, n) == IF n \in DOMAIN mt[m].views THEN <<mt[m].views[n]>> ELSE << >>
HandleCmd(m) ==
  /\ Ready(m) /\ Head(mt[m].q).k = "cmd"
  /\ LET x == Head(mt[m].q) c == x.c M == [mt EXCEPT ![m].q = Tail(@)] Res(v) == out' = Put(out, x.th, v) IN
     \/ c.op \in {"find", "retrieve"} /\ Res([ok |-> TRUE, v |-> View0(m, c.n)]) /\ mt' = M
     \/ /\ c.op = "register"
        /\ LET r == Register(mt[m].views, c.views) IN
           Res([ok |-> TRUE, err |-> r.err]) /\ mt' = [M EXCEPT ![m].views = r.views]
     \/ /\ c.op = "setperiod"
        /\ LET p == IF c.d <= 0 THEN DefPeriod ELSE c.d IN
           Res([ok |-> TRUE]) /\ mt' = [M EXCEPT ![m].period = p, ![m].next = now + p]
     \/ /\ c.op = "unregister"
        /\ mt' = [M EXCEPT ![m].w = [k |-> "unreg", left |-> c.ns, cur |-> "", pend |-> {}, th |-> x.th]]
        /\ UNCHANGED out
  /\ UNCHANGED now

(* unregistering: each view in turn is reported (it may be left out if it has   *)
(* nothing to report), then removed with its data                                *)
UnregPick(m) ==
  LET w == mt[m].w IN
  /\ w.k = "unreg" /\ w.cur = "" /\ w.left # << >>
  /\ LET n == Head(w.left) IN
     IF n \notin DOMAIN mt[m].views THEN mt' = [mt EXCEPT ![m].w.left = Tail(@)]
     ELSE \/ mt' = [mt EXCEPT ![m].w = [@ EXCEPT !.left = Tail(@), !.cur = n, !.pend = mt[m].exps]]
          \/ /\ mt[m].views[n].rows = << >> /\ mt[m].exps # {}
             /\ mt' = [mt EXCEPT ![m].w = [@ EXCEPT !.left = Tail(@), !.cur = n, !.pend = {}]]
  /\ UNCHANGED <<now, out>>
UnregDrop(m) ==
  LET w == mt[m].w IN
  /\ w.k = "unreg" /\ w.cur # "" /\ w.pend = {}
  /\ mt' = [mt EXCEPT ![m].views = Del(@, w.cur), ![m].w.cur = ""]
  /\ UNCHANGED <<now, out>>
UnregDone(m) ==
  LET w == mt[m].w IN
  /\ w.k = "unreg" /\ w.cur = "" /\ w.left = << >>
  /\ mt' = [mt EXCEPT ![m].w = Idle] /\ out' = Put(out, w.th, [ok |-> TRUE]) /\ UNCHANGED now

(* the periodic report: every registered view, in any order; a view that is     *)
(* being reported goes to all exporters registered at that moment                *)
TickM(m) == /\ Running(m) /\ mt[m].w.k = "idle" /\ mt[m].next = now
            /\ mt' = [mt EXCEPT ![m].next = @ + mt[m].period,
                                ![m].w = [Idle EXCEPT !.k = "rep", !.left = DOMAIN mt[m].views]]
            /\ UNCHANGED <<now, out>>
RepPick(m) ==
  LET w == mt[m].w IN
  /\ w.k = "rep" /\ w.cur = ""
  /\ \E n \in w.left :
       mt' = [mt EXCEPT ![m].w = [@ EXCEPT !.left = @ \ {n}, !.cur = n, !.pend = mt[m].exps]]
  /\ UNCHANGED <<now, out>>
RepSkip(m) ==   \* views without data need not be reported
  LET w == mt[m].w S == {n \in w.left : mt[m].views[n].rows = << >> \/ mt[m].exps = {}} IN
  /\ w.k = "rep" /\ w.cur = "" /\ S # {}
  /\ mt' = [mt EXCEPT ![m].w = [@ EXCEPT !.left = @ \ S]]
  /\ UNCHANGED <<now, out>>
RepNext(m) ==
  LET w == mt[m].w IN
  /\ w.k = "rep" /\ w.pend = {} /\ (w.cur # "" \/ w.left = {})
  /\ mt' = [mt EXCEPT ![m].w = IF w.left = {} THEN Idle ELSE [@ EXCEPT !.cur = ""]]
  /\ UNCHANGED <<now, out>>
(* exporter x is given view n: start of the registration, end now, all rows *)
Deliver(m, x, n) ==
  /\ mt[m].w.cur = n /\ n # "" /\ x \in mt[m].w.pend
  /\ mt' = [mt EXCEPT ![m].w.pend = @ \ {x}]
  /\ UNCHANGED <<now, out>>
InReport(m) == mt[m].w.pend # {}
AddExp(m, x) == ~InReport(m) /\ mt' = [mt EXCEPT ![m].exps = @ \cup {x}] /\ UNCHANGED <<now, out>>
DelExp(m, x) == ~InReport(m) /\ mt' = [mt EXCEPT ![m].exps = @ \ {x}] /\ UNCHANGED <<now, out>>
SetRes(m, r) == mt' = [mt EXCEPT ![m].res = r] /\ UNCHANGED <<now, out>>

Worker(m) == HandleRecord(m) \/ HandleCmd(m) \/ UnregPick(m) \/ UnregDrop(m) \/ UnregDone(m)
             \/ TickM(m) \/ RepPick(m) \/ RepSkip(m) \/ RepNext(m) \/ Die(m)
(* time passes only when every running worker has nothing to do *)
Quiet(m) == mt[m].st # "run" \/ (mt[m].q = << >> /\ mt[m].w.k = "idle" /\ mt[m].next > now /\ ~mt[m].stopReq)
Nexts == {mt[m].next : m \in {k \in DOMAIN mt : Running(k)}}
AdvanceTo(t) == /\ t > now /\ \A m \in DOMAIN mt : Quiet(m)
                /\ now' = IF \E x \in Nexts : x < t THEN CHOOSE x \in Nexts : \A y \in Nexts : x <= y ELSE t
                /\ UNCHANGED <<mt, out>>
VInit == now = 0 /\ mt = << >> /\ out = << >>
=============================================================================
