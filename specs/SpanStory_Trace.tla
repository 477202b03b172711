-------------------------- MODULE SpanStory_Trace ---------------------------
(* Binds SpanStory.tla to the pages written for recorded histories of spans *)
EXTENDS SpanStory, TraceKit
TInit == TraceInit0 /\ YInit
New0 == New(Ev.n, 0, Ev.la, Ev.ln, Ev.lm, 1) @@
        [tid |-> Ev.tid, sid |-> Ev.sid, par |-> Ev.par, samp |-> Ev.samp, t0 |-> clock, t1 |-> << >>]
Op == CASE Ev.op = "annotate" -> [op |-> "annotate", v |-> [t |-> clock, b |-> Ev.b]]
        [] Ev.op = "message"  -> [op |-> "message", v |-> [t |-> clock, b |-> Ev.b]]
        [] OTHER -> Ev
(* a page lists exactly the running spans of the name, or ended ones; each tells its own story *)
Page ==
  /\ IsOp("call", "page")
  /\ Ev.num \in {-1, Len(Ev.spans)}
  /\ \A i, j \in 1..Len(Ev.spans) : i # j => Ev.spans[i].sid # Ev.spans[j].sid
  /\ \A i \in 1..Len(Ev.spans) : \E s \in DOMAIN live : live[s].sid = Ev.spans[i].sid /\ live[s].first = Ev.n /\ StoryOK(Ev.spans[i], Now(s))
  /\ Ev.ty = 0 => {Ev.spans[i].sid : i \in 1..Len(Ev.spans)} = {live[s].sid : s \in {s \in DOMAIN live \ DOMAIN final : live[s].first = Ev.n}}
  /\ Ev.ty # 0 => \A i \in 1..Len(Ev.spans) : Ev.spans[i].dur # << >>
  /\ UNCHANGED yvars
TNext ==
  \/ IsOp("call", "tick") /\ Passes(Ev.s, Ev.ns) /\ Step
  \/ IsOp("call", "start") /\ Begin(Ev.s, New0 @@ [first |-> Ev.n]) /\ Step
  \/ Is("call") /\ Ev.op \in {"setname", "setstatus", "attrs", "annotate", "message"} /\ Does(Ev.s, Op) /\ Step
  \/ IsOp("call", "end") /\ EndOf(Ev.s) /\ Step
  \/ Page /\ Step
TSpec == TInit /\ [][TNext]_<<yvars, tid, l>>
=============================================================================
