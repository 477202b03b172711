------------------------- MODULE SpanContent_Trace --------------------------
EXTENDS SpanContent, TraceKit
TInit == TraceInit0 /\ CInit
Rng(q) == {q[i] : i \in 1..Len(q)}
(* does the recorded projection e show exactly content c? *)
Shows(e, c) ==
  /\ e.name = c.name /\ e.kind = c.kind /\ e.code = c.code /\ e.smsg = c.smsg /\ e.child = c.child
  /\ Len(e.attrs) = Len(c.A.q) /\ Rng(e.attrs) = Rng(c.A.q) /\ e.da = c.A.drop
  /\ e.anns = c.N.q /\ e.dn = c.N.drop
  /\ e.msgs = c.M.q /\ e.dm = c.M.drop
  /\ e.links = c.L.q /\ e.dl = c.L.drop
TNext ==
  \/ IsOp("call", "start") /\ Start(Ev.s, New(Ev.name, Ev.kind, Ev.la, Ev.ln, Ev.lm, Ev.ll)) /\ Step
  \/ Is("inv") /\ Inv(Ev.th, Ev.s, Ev) /\ Step
  \/ (NextIs("ret") \/ NextIs("del")) /\ (\E t \in DOMAIN pend : Lin(t)) /\ Silent
  \/ IsOp("ret", "observe") /\ Ev.th \in DOMAIN pend /\ pend[Ev.th].lin
                            /\ (Ev.present => Shows(Ev.c, pend[Ev.th].seen)) /\ Ret(Ev.th) /\ Step
  \/ Is("ret") /\ Ev.op # "observe" /\ Ret(Ev.th) /\ Step
  \/ IsOp("del", "deliver") /\ Ev.s \in DOMAIN final /\ Shows(Ev.c, final[Ev.s]) /\ Ev.timeok /\ Step /\ UNCHANGED cvars
  \/ IsOp("call", "reread") /\ Ev.s \in DOMAIN final /\ Shows(Ev.c, final[Ev.s]) /\ Step /\ UNCHANGED cvars
  \/ IsOp("call", "noop") /\ Step /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_<<cvars, tid, l>>
=============================================================================
