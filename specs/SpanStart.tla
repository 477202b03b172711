----------------------------- MODULE SpanStart ------------------------------
(* C01 span identity and lineage, C02 sampling, C05 configuration.            *)
(* A span is started in three steps: the call begins (Inv), it reads the       *)
(* current configuration (LinStart), it returns the new span (RetStart).       *)
(* ApplyConfig takes a lock, merges and publishes.                             *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC
VARIABLES
  cfg,    \* current configuration: [samp, gen, la, ln, lm, ll]
  spans,  \* span -> what was decided when it was started
  ctxs,   \* context -> current span (0: none)
  vals,   \* context -> what the caller stored in it (0: nothing)
  sids,   \* span IDs in use (0 is never one of them)
  tids,   \* trace IDs in use
  pend    \* thread -> pending call

svars == <<cfg, spans, ctxs, vals, sids, tids, pend>>

Fields == {"samp", "gen", "la", "ln", "lm", "ll"}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Min(a, b)    == IF a < b THEN a ELSE b

SInit(c) == /\ cfg = c /\ spans = << >> /\ ctxs = 0 :> 0 /\ vals = 0 :> 0 /\ sids = {} /\ tids = {} /\ pend = << >>

(* ---------------------------------------------------------------- ApplyConfig *)
Merge(c, a) == [f \in Fields |-> IF a[f] > 0 THEN a[f] ELSE c[f]]

InvApply(t, a) == /\ t \notin DOMAIN pend
                  /\ pend' = Put(pend, t, [op |-> "apply", arg |-> a, lin |-> FALSE])
                  /\ UNCHANGED <<cfg, spans, ctxs, vals, sids, tids>>
LinApply(t) == /\ t \in DOMAIN pend /\ pend[t].op = "apply" /\ ~pend[t].lin
               /\ cfg' = Merge(cfg, pend[t].arg)
               /\ pend' = [pend EXCEPT ![t].lin = TRUE]
               /\ UNCHANGED <<spans, ctxs, vals, sids, tids>>
RetApply(t) == /\ t \in DOMAIN pend /\ pend[t].op = "apply" /\ pend[t].lin
               /\ pend' = Del(pend, t)
               /\ UNCHANGED <<cfg, spans, ctxs, vals, sids, tids>>

(* ---------------------------------------------------------------- starting *)
NoParent == [tid |-> 0, sid |-> 0, bits |-> 0, samp |-> FALSE, ts |-> 0]
(* the span context of the span current in context c *)
ParentOf(c) == IF ctxs[c] = 0 THEN NoParent
               ELSE LET p == spans[ctxs[c]] IN
                    [tid |-> p.tid, sid |-> p.sid, bits |-> p.bits, samp |-> p.samp, ts |-> p.ts]

(* remote = TRUE: par is the explicitly given remote parent, which wins over the context *)
InvStart(t, c, remote, par, opt) ==
  /\ t \notin DOMAIN pend /\ c \in DOMAIN ctxs
  /\ pend' = Put(pend, t, [op |-> "start", ctx |-> c, remote |-> remote, par |-> IF remote THEN par ELSE ParentOf(c),
                           opt |-> opt, lin |-> FALSE, cfg |-> cfg])
  /\ UNCHANGED <<cfg, spans, ctxs, vals, sids, tids>>
LinStart(t) ==
  /\ t \in DOMAIN pend /\ pend[t].op = "start" /\ ~pend[t].lin
  /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].cfg = cfg]
  /\ UNCHANGED <<cfg, spans, ctxs, vals, sids, tids>>

HasParent(p)  == p.par # NoParent
Consults(p)   == ~HasParent(p) \/ p.remote \/ p.opt # 0
SamplerOf(p)  == IF p.opt # 0 THEN p.opt ELSE p.cfg.samp

(* s: new span, c: new context, ti/si: its IDs, ans: answer of the sampler, store: local span store on *)
RetStart(t, s, c, ti, si, ans, store) ==
  /\ t \in DOMAIN pend /\ pend[t].op = "start" /\ pend[t].lin
  /\ s \notin DOMAIN spans /\ c \notin DOMAIN ctxs
  /\ LET p == pend[t]
         sm == IF Consults(p) THEN ans ELSE p.par.samp IN
     /\ si # 0 /\ si \notin sids
     /\ IF HasParent(p) THEN ti = p.par.tid ELSE ti # 0 /\ ti \notin tids
     /\ spans' = Put(spans, s, [tid |-> ti, sid |-> si, bits |-> p.par.bits, ts |-> p.par.ts, samp |-> sm,
                                parent |-> p.par.sid, ptid |-> p.par.tid, remote |-> p.remote, rec |-> sm \/ store,
                                cfg |-> p.cfg, root |-> ~HasParent(p), asked |-> Consults(p)])
     /\ ctxs' = Put(ctxs, c, s) /\ vals' = Put(vals, c, vals[p.ctx])   \* only the current span changes
     /\ sids' = sids \cup {si} /\ tids' = tids \cup {ti, p.par.tid}
     /\ pend' = Del(pend, t)
     /\ UNCHANGED cfg

(* NewContext *)
Attach(c0, c, s) == /\ c \notin DOMAIN ctxs /\ (s = 0 \/ s \in DOMAIN spans)
                /\ ctxs' = Put(ctxs, c, s) /\ vals' = Put(vals, c, vals[c0])
                /\ UNCHANGED <<cfg, spans, sids, tids, pend>>
(* the caller stores v in a context derived from c0 *)
With(c0, c, v) == /\ c \notin DOMAIN ctxs
                /\ ctxs' = Put(ctxs, c, ctxs[c0]) /\ vals' = Put(vals, c, v)
                /\ UNCHANGED <<cfg, spans, sids, tids, pend>>

(* ---------------------------------------------------------------- the probability sampler *)
(* e.f: increasing ladder of fractions in units of 1/e.unit (may be < 0 or > 1); e.ans[i]: its answer on one    *)
(* trace ID without sampled parent, e.var: answers (same ladder) on that ID with other span IDs, names, parents;*)
(* e.par: answers when the parent is sampled                                                                   *)
ProbOK(e) ==
  /\ \A i, j \in 1..Len(e.f) : i <= j /\ e.ans[i] => e.ans[j]
  /\ \A i \in 1..Len(e.f) : /\ e.f[i] <= 0 => ~e.ans[i]
                            /\ e.f[i] >= e.unit => e.ans[i]
                            /\ e.par[i]
  /\ \A k \in 1..Len(e.var) : e.var[k] = e.ans
(* e.n uniformly drawn trace IDs, e.yes of them sampled at fraction e.f/100 *)
ShareOK(e) == e.yes * 100 >= (e.f - 6) * e.n /\ e.yes * 100 <= (e.f + 6) * e.n

(* ---------------------------------------------------------------- properties *)
UniqueSids == \A a, b \in DOMAIN spans : a # b => spans[a].sid # spans[b].sid
NonZero    == \A a \in DOMAIN spans : spans[a].sid # 0 /\ spans[a].tid # 0
Lineage    == \A a \in DOMAIN spans :
   /\ ~spans[a].root => spans[a].tid = spans[a].ptid
   /\ spans[a].root => /\ spans[a].parent = 0 /\ spans[a].bits = 0 /\ spans[a].ts = 0
                       /\ \A b \in DOMAIN spans : b # a /\ spans[b].tid = spans[a].tid => ~spans[b].root
   /\ ~spans[a].root /\ ~spans[a].remote =>
        \E b \in DOMAIN spans : /\ spans[b].sid = spans[a].parent /\ spans[b].tid = spans[a].tid
                                /\ spans[b].bits = spans[a].bits /\ spans[b].ts = spans[a].ts
Inherit    == \A a \in DOMAIN spans : ~spans[a].asked =>
        \E b \in DOMAIN spans : spans[b].sid = spans[a].parent /\ spans[b].samp = spans[a].samp
SampledRecords == \A a \in DOMAIN spans : spans[a].samp => spans[a].rec
StartInv == UniqueSids /\ NonZero /\ Lineage /\ Inherit /\ SampledRecords
SpansFrozen == [][\A a \in DOMAIN spans : a \in DOMAIN spans' /\ spans'[a] = spans[a]]_svars
CtxFrozen   == [][\A a \in DOMAIN ctxs : a \in DOMAIN ctxs' /\ ctxs'[a] = ctxs[a] /\ vals'[a] = vals[a]]_svars
=============================================================================
