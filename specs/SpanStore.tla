----------------------------- MODULE SpanStore ------------------------------
(* C06. The local span store: per start-name, the set of active spans and the  *)
(* error / latency buckets of ended ones. Times are integers (microseconds in  *)
(* traces).                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Bounds,      \* upper bounds of the latency buckets but the last (increasing)
          Second,      \* minimal distance between end times accepted by a bucket
          DefCap, MaxCap
VARIABLES
  on,      \* local span store enabled
  now,
  st,      \* name -> [active, lat, err, ecap]
  sp,      \* span -> [name, start, code, tracked, ended]
  pend

rvars == <<on, now, st, sp, pend>>
NB == Len(Bounds) + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Clamp(x)     == IF x < 0 THEN 0 ELSE IF x > MaxCap THEN MaxCap ELSE x

(* ------------------------------------------------------------ buckets *)
NewB(cap) == [cap |-> cap, q |-> << >>, any |-> FALSE, last |-> 0]
AddB(b, r) == IF b.cap = 0 \/ (b.any /\ r.end - b.last < Second) THEN b
              ELSE [b EXCEPT !.any = TRUE, !.last = r.end,
                             !.q = IF Len(@) = b.cap THEN Append(Tail(@), r) ELSE Append(@, r)]
Resize(b, n) == [b EXCEPT !.cap = n, !.q = IF Len(@) > n THEN SubSeq(@, Len(@) - n + 1, Len(@)) ELSE @]
BucketOf(d) == 1 + Cardinality({i \in 1..Len(Bounds) : Bounds[i] <= d})
NewStore(lc, ec) == [active |-> {}, lat |-> [i \in 1..NB |-> NewB(lc)], err |-> << >>, ecap |-> ec]

StoreOf(n) == IF n \in DOMAIN st THEN st[n] ELSE NewStore(DefCap, DefCap)
Stored(b) == {b.q[i] : i \in 1..Len(b.q)}

RInit == on = TRUE /\ now = 0 /\ st = << >> /\ sp = << >> /\ pend = << >>

(* ------------------------------------------------------------ transitions *)
Tick(d) == now' = now + d /\ UNCHANGED <<on, st, sp, pend>>
Enable(b) == on' = b /\ UNCHANGED <<now, st, sp, pend>>
SetCode(s, c) == s \in DOMAIN sp /\ sp' = [sp EXCEPT ![s].code = c] /\ UNCHANGED <<on, now, st, pend>>

StartSpan(s, n) ==
  /\ s \notin DOMAIN sp
  /\ sp' = Put(sp, s, [name |-> n, start |-> now, code |-> 0, tracked |-> on, ended |-> FALSE])
  /\ st' = IF on THEN Put(st, n, [StoreOf(n) EXCEPT !.active = @ \cup {s}]) ELSE st
  /\ UNCHANGED <<on, now, pend>>

(* End, first half: claim the span, snapshot its status and end time *)
EndSnap(t) ==
  /\ t \in DOMAIN pend /\ pend[t].op = "end" /\ pend[t].stage = 0
  /\ LET s == pend[t].s IN
     IF sp[s].ended \/ ~sp[s].tracked
     THEN /\ pend' = [pend EXCEPT ![t].stage = 2]
          /\ sp' = [sp EXCEPT ![s].ended = TRUE]
     ELSE /\ pend' = [pend EXCEPT ![t].stage = 1, ![t].rec = [s |-> s, code |-> sp[s].code, dur |-> now - sp[s].start, end |-> now]]
          /\ sp' = [sp EXCEPT ![s].ended = TRUE]
  /\ UNCHANGED <<on, now, st>>
(* second half: under the store's lock, out of the active set and into one bucket *)
File(S, r) == IF r.code = 0
              THEN [S EXCEPT !.active = @ \ {r.s}, !.lat = [@ EXCEPT ![BucketOf(r.dur)] = AddB(@, r)]]
              ELSE [S EXCEPT !.active = @ \ {r.s},
                             !.err = Put(@, r.code, AddB(IF r.code \in DOMAIN @ THEN @[r.code] ELSE NewB(S.ecap), r))]
EndFile(t) ==
  /\ t \in DOMAIN pend /\ pend[t].op = "end" /\ pend[t].stage = 1
  /\ LET n == sp[pend[t].s].name IN st' = [st EXCEPT ![n] = File(@, pend[t].rec)]
  /\ pend' = [pend EXCEPT ![t].stage = 2]
  /\ UNCHANGED <<on, now, sp>>

Configure(n, lc, ec) ==
  /\ st' = IF n \in DOMAIN st
           THEN [st EXCEPT ![n] = [@ EXCEPT !.lat = [i \in 1..NB |-> Resize(@[i], Clamp(lc))],
                                            !.err = [c \in DOMAIN @ |-> Resize(@[c], Clamp(ec))], !.ecap = Clamp(ec)]]
           ELSE Put(st, n, NewStore(Clamp(lc), Clamp(ec)))
  /\ UNCHANGED <<on, now, sp, pend>>

(* ------------------------------------------------------------ queries *)
Active(n) == StoreOf(n).active
AllErr(S) == UNION {Stored(S.err[c]) : c \in DOMAIN S.err}
AllLat(S) == UNION {Stored(S.lat[i]) : i \in 1..NB}
ByError(S, c) == IF c = 0 THEN {r.s : r \in AllErr(S)} ELSE {r.s : r \in {q \in AllErr(S) : q.code = c}}
ByLatency(S, lo, hi) == {r.s : r \in {q \in AllLat(S) : q.dur >= lo /\ (hi = 0 \/ q.dur <= hi)}}

(* ------------------------------------------------------------ properties *)
ActiveExact == \A n \in DOMAIN st :
   \A s \in DOMAIN sp : (s \in st[n].active) <=>
      (sp[s].name = n /\ sp[s].tracked /\ (~sp[s].ended \/ \E t \in DOMAIN pend : pend[t].op = "end" /\ pend[t].s = s /\ pend[t].stage = 1))
Placed == \A n \in DOMAIN st :
   /\ \A i \in 1..NB : \A r \in Stored(st[n].lat[i]) : r.code = 0 /\ (i = 1 \/ r.dur >= Bounds[i-1]) /\ (i = NB \/ r.dur < Bounds[i])
   /\ \A c \in DOMAIN st[n].err : \A r \in Stored(st[n].err[c]) : r.code = c /\ c # 0
BucketOK(b) == /\ Len(b.q) <= b.cap
               /\ \A i \in 1..Len(b.q)-1 : b.q[i+1].end - b.q[i].end >= Second
Buckets == \A n \in DOMAIN st : (\A i \in 1..NB : BucketOK(st[n].lat[i])) /\ (\A c \in DOMAIN st[n].err : BucketOK(st[n].err[c]))
OncePerSpan == \A n \in DOMAIN st :
   Cardinality({r.s : r \in AllLat(st[n]) \cup AllErr(st[n])}) = Cardinality(AllLat(st[n]) \cup AllErr(st[n]))
StoreInv == ActiveExact /\ Placed /\ Buckets /\ OncePerSpan
=============================================================================
