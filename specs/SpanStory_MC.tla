---------------------------- MODULE SpanStory_MC ----------------------------
(* every short history of one span: the layout of its story, as a page would    *)
(* show it, keeps what it must                                                  *)
EXTENDS SpanStory
CONSTANTS MaxOps
VARIABLES nops
mcv == <<yvars, nops>>
X0 == New("n", 0, 2, 2, 2, 1) @@ [tid |-> "t", sid |-> "s", par |-> "", samp |-> TRUE, t0 |-> clock, t1 |-> << >>]
Steps == {<<0, 1500>>, <<0, 999999999>>, <<43200, 0>>, <<100000, 1>>}
Ops == {[op |-> "annotate", v |-> [t |-> clock, b |-> [k |-> "note", txt |-> "a", len |-> l, kvs |-> kv]]] : l \in {0, 1025}, kv \in {<< >>, <<<<2, "v">>, <<1, "w">>>>}}
       \cup {[op |-> "message", v |-> [t |-> clock, b |-> [k |-> "sent", u |-> u, c |-> 1]]] : u \in {1, 2}}
       \cup {[op |-> "attrs", kvs |-> <<<<k, "v">>>>] : k \in {1, 2, 3}} \cup {[op |-> "setstatus", code |-> 2, smsg |-> "m"]}
MCInit == YInit /\ nops = 0
MCNext == /\ nops < MaxOps /\ nops' = nops + 1
          /\ \/ \E d \in Steps : Passes(d[1], d[2])
             \/ 1 \notin DOMAIN live /\ Begin(1, X0)
             \/ 1 \in DOMAIN live /\ \E o \in Ops : Does(1, o)
             \/ 1 \in DOMAIN live /\ EndOf(1)
MCSpec == MCInit /\ [][MCNext]_mcv
(* the page as the code lays it out: events sorted by a stable sort, notes before messages *)
RECURSIVE Lay(_, _, _)
Lay(es, t, d) == IF es = << >> THEN << >> ELSE LET e == Head(es) IN
   <<[day |-> IF Day(e.t) = d THEN -1 ELSE Day(e.t), time |-> Time(e.t), el |-> Elapsed(e.t, t), b |-> e.b]>> \o Lay(Tail(es), e.t, Day(e.t))
PageOf(x) == [tid |-> x.tid, sid |-> x.sid, par |-> x.par, col |-> "blue", day |-> Day(x.t0), time |-> Time(x.t0),
              dur |-> IF x.t1 = << >> THEN << >> ELSE Elapsed(x.t1[1], x.t0),
              status |-> IF x.code = 0 /\ x.smsg = "" THEN << >> ELSE <<CodeName(x.code), x.smsg>>,
              attrs |-> ByKey(x.A.q), events |-> Lay(InTime(Events(x)), x.t0, Day(x.t0))]
Shown == 1 \in DOMAIN live => StoryOK(PageOf(Now(1)), Now(1))
(* two events shown apart in time cannot be exchanged *)
OrderMatters == 1 \in DOMAIN live => LET x == Now(1) p == PageOf(x) IN
   \A i \in 1..Len(p.events) - 1 : LET q == [p EXCEPT !.events[i].b = p.events[i+1].b, !.events[i+1].b = p.events[i].b] IN
      p.events[i].b # p.events[i+1].b /\ p.events[i+1].el # <<0, 0>> => ~StoryOK(q, x)
(* a reader can rebuild each event's day from the dates shown *)
Dates == 1 \in DOMAIN live => LET x == Now(1) p == PageOf(x) es == InTime(Events(x)) IN
   \A i \in 1..Len(es) : LET ds == {j \in 1..i : p.events[j].day # -1} IN
      Day(es[i].t) = IF ds = {} THEN p.day ELSE p.events[CHOOSE j \in ds : \A k \in ds : k <= j].day
StoryFrozen == [][\A s \in DOMAIN final : Now(s)' = Now(s)]_mcv
=============================================================================
