-------------------------- MODULE SpanStart_Trace ---------------------------
EXTENDS SpanStart, TraceKit
On(p) == Prop = p
F0 == Evs[1]     \* first event: the configuration in force and the store flag
CfgOf(e) == [f \in Fields |-> e[f]]
TInit == TraceInit0 /\ SInit(CfgOf(F0))
ParOf(e) == [tid |-> e.ptid, sid |-> e.psid, bits |-> e.pbits, samp |-> e.psamp, ts |-> e.pts]

(* what the returned span must look like (s' is the specification's span) *)
GoodStart(p) ==
  LET s == spans'[Ev.s] IN
  /\ On("C01") => s.bits = Ev.bits /\ s.ts = Ev.ts
  /\ On("C02") => /\ Ev.samp = s.samp /\ Ev.rec = s.rec
                  /\ Len(Ev.asked) = (IF Consults(p) THEN 1 ELSE 0)
                  /\ Consults(p) => LET q == Ev.asked[1] IN
                        /\ q.sampler = SamplerOf(p)
                        /\ q.tid = Ev.tid /\ q.sid = Ev.sid
                        /\ q.ptid = p.par.tid /\ q.psid = p.par.sid /\ q.pbits = p.par.bits /\ q.psamp = p.par.samp /\ q.pts = p.par.ts
                        /\ (~p.remote \/ HasParent(p)) => q.remote = p.remote
  /\ On("C05") => /\ Ev.sgen = p.cfg.gen
                  /\ ~HasParent(p) => Ev.tgen = p.cfg.gen
                  /\ (Consults(p) /\ p.opt = 0 /\ Len(Ev.asked) > 0) => Ev.asked[1].sampler = p.cfg.samp

(* For C02/C05 the IDs of the span are taken as observed: IDs themselves are judged by C01 *)
RetStartObs ==
  LET p == pend[Ev.th]
      sm == IF Consults(p) THEN Ev.ans ELSE p.par.samp IN
  /\ p.lin
  /\ spans' = Put(spans, Ev.s, [tid |-> Ev.tid, sid |-> Ev.sid, bits |-> Ev.bits, ts |-> Ev.ts, samp |-> sm,
                                parent |-> p.par.sid, ptid |-> p.par.tid, remote |-> p.remote, rec |-> sm \/ F0.store,
                                cfg |-> p.cfg, root |-> ~HasParent(p), asked |-> Consults(p)])
  /\ ctxs' = Put(ctxs, Ev.nctx, Ev.s) /\ vals' = Put(vals, Ev.nctx, vals[p.ctx])
  /\ pend' = Del(pend, Ev.th)
  /\ UNCHANGED <<cfg, sids, tids>>

TRetStart == /\ IsOp("ret", "start") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].op = "start"
             /\ IF On("C01") THEN RetStart(Ev.th, Ev.s, Ev.nctx, Ev.tid, Ev.sid, Ev.samp, F0.store) ELSE RetStartObs
             /\ GoodStart(pend[Ev.th])
             /\ Step

K == F0.fill
Data(s) ==  \* what an exporter, or the active-span report, shows of span s
  /\ On("C01") => /\ Ev.tid = s.tid /\ Ev.sid = s.sid /\ Ev.parent = s.parent
                  /\ ~(s.root /\ s.remote) => Ev.remote = s.remote
                  /\ Ev.bits = s.bits /\ Ev.ts = s.ts
  /\ On("C02") => Ev.samp = s.samp
  /\ On("C05") => /\ Ev.na = Min(K, s.cfg.la) /\ Ev.nn = Min(K, s.cfg.ln)
                  /\ Ev.nm = Min(K, s.cfg.lm) /\ Ev.nl = Min(K, s.cfg.ll)
TNext ==
  \/ IsOp("call", "init") /\ l = 1 /\ Step /\ UNCHANGED svars
  \/ IsOp("inv", "apply") /\ InvApply(Ev.th, CfgOf(Ev)) /\ Step
  \/ IsOp("ret", "apply") /\ RetApply(Ev.th) /\ Step
  \/ IsOp("inv", "start") /\ InvStart(Ev.th, Ev.ctx, Ev.remote, ParOf(Ev), Ev.opt) /\ Step
  \/ NextIs("ret") /\ (\E t \in DOMAIN pend : LinApply(t) \/ LinStart(t)) /\ Silent
  \/ TRetStart
  \/ IsOp("call", "attach") /\ Attach(Ev.ctx, Ev.nctx, Ev.s) /\ Step
  \/ IsOp("call", "with") /\ With(Ev.ctx, Ev.nctx, Ev.v) /\ Step
  \/ IsOp("call", "cur") /\ (On("C01") => ctxs[Ev.ctx] = Ev.s /\ vals[Ev.ctx] = Ev.v) /\ Step /\ UNCHANGED svars
  \/ IsOp("call", "data") /\ Data(spans[Ev.s]) /\ Step /\ UNCHANGED svars
  \/ IsOp("call", "norec") /\ (On("C02") => ~spans[Ev.s].rec) /\ Step /\ UNCHANGED svars
  \/ IsOp("call", "prob") /\ (On("C02") => ProbOK(Ev)) /\ Step /\ UNCHANGED svars
  \/ IsOp("call", "share") /\ (On("C02") => ShareOK(Ev)) /\ Step /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, tid, l>>
=============================================================================
