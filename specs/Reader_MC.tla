----------------------------- MODULE Reader_MC ------------------------------
(* Reader.tla driven by the steps of the implementation: a loop goroutine with  *)
(* a ticker and a quit/done handshake, and Start, Stop and Flush under one lock. *)
EXTENDS Reader
CONSTANTS Threads, Prods, MaxOps, MaxNow, MaxReads
VARIABLES mu, pc, loop, nops, nread, hist, stopped
mcv == <<rvars, mu, pc, loop, nops, nread, hist, stopped>>
MCDef == 3
MCMin == 1
R == 1
Aux == <<mu, pc, loop, nops, nread, hist, stopped>>
MCInit == /\ now = 0 /\ prods = {} /\ size = [p \in Prods |-> 1] /\ reads = << >> /\ calls = << >>
          /\ rdr = [r \in {R} |-> [int |-> 0, run |-> FALSE, next |-> 0, iv |-> 0, buf |-> FALSE, busy |-> FALSE, snaps |-> {}, base |-> {}]]
          /\ mu = 0 /\ pc = [t \in Threads |-> "idle"] /\ loop = [st |-> "none", ps |-> {}, d |-> << >>] /\ nops = 0 /\ nread = 0
          /\ hist = [n |-> 0, t0 |-> 0, slow |-> FALSE] /\ stopped = FALSE
Op(t, s) == pc[t] = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ pc' = [pc EXCEPT ![t] = s]
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
PAdd(t) == Op(t, "idle") /\ (\E p \in Prods : AddProd(p) \/ DelProd(p)) /\ UNCHANGED <<mu, loop, nread, hist, stopped>>
SetI(t) == Op(t, "idle") /\ mu = 0 /\ (\E d \in {0, 2} : SetInt(R, d)) /\ UNCHANGED <<mu, loop, nread, hist, stopped>>
Lock(t) == \E s \in {"start", "stop", "flush"} : /\ Op(t, s) /\ mu = 0 /\ mu' = t
             /\ (IF s = "flush" THEN CallB(t, R, TRUE) ELSE UNCHANGED rvars) /\ UNCHANGED <<loop, nread, hist, stopped>>
DoStart(t) == /\ pc[t] = "start" /\ Start(R) /\ Go(t, "idle") /\ mu' = 0 /\ UNCHANGED <<nops, nread>>
              /\ IF StartErr(R) THEN UNCHANGED <<loop, hist, stopped>>
                 ELSE loop' = [st |-> "idle", ps |-> {}, d |-> << >>] /\ hist' = [n |-> 0, t0 |-> now, slow |-> FALSE] /\ stopped' = FALSE
(* the loop accepts quit only between exports *)
DoStop(t) == /\ pc[t] = "stop" /\ (rdr[R].run => loop.st = "idle") /\ Stop(R) /\ loop' = [loop EXCEPT !.st = "none"]
             /\ Go(t, "idle") /\ mu' = 0 /\ stopped' = TRUE /\ UNCHANGED <<nops, nread, hist>>
LoopTake == loop.st = "idle" /\ Due(R) /\ loop' = [st |-> "read", ps |-> prods, d |-> << >>] /\ UNCHANGED <<rvars, mu, pc, nops, nread, hist, stopped>>
LoopRead == /\ loop.st = "read" /\ loop.ps # {} /\ nread < MaxReads
            /\ LET p == CHOOSE q \in loop.ps : TRUE IN
               ReadProd(p, nread + 1) /\ nread' = nread + 1 /\ loop' = [loop EXCEPT !.ps = @ \ {p}, !.d = Append(@, <<nread + 1, 1>>)]
            /\ UNCHANGED <<mu, pc, nops, hist, stopped>>
LoopX == /\ loop.st = "read" /\ loop.ps = {} /\ LoopExp(R, loop.d) /\ loop' = [loop EXCEPT !.st = "busy"]
         /\ hist' = [hist EXCEPT !.n = @ + 1] /\ UNCHANGED <<mu, pc, nops, nread, stopped>>
LoopE == loop.st = "busy" /\ LoopEnd(R) /\ loop' = [loop EXCEPT !.st = "idle"] /\ UNCHANGED <<mu, pc, nops, nread, hist, stopped>>
(* Flush; reads all its producers in one step here *)
DoFlush(t) == /\ pc[t] = "flush" /\ UNCHANGED <<nops, nread, hist, stopped, loop>>
              /\ IF rdr[R].run THEN CallSkip(t) /\ Go(t, "fret") /\ UNCHANGED mu ELSE CallGo(t) /\ Go(t, "fgo") /\ UNCHANGED mu
Perm(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
FRead(t) == /\ pc[t] = "fgo" /\ Cardinality(prods) + nread <= MaxReads
            /\ LET q == Perm(prods) IN
               /\ reads' = [n \in DOMAIN reads \cup {nread + i : i \in DOMAIN q} |-> IF n \in DOMAIN reads THEN reads[n] ELSE q[n - nread]]
               /\ nread' = nread + Len(q) /\ pc' = [pc EXCEPT ![t] = "fexp"] /\ loop' = [loop EXCEPT !.d = [i \in DOMAIN q |-> <<nread + i, 1>>]]
            /\ UNCHANGED <<now, prods, size, rdr, calls, mu, nops, hist, stopped>>
FExp(t) == pc[t] = "fexp" /\ CallExp(t, loop.d) /\ Go(t, "fend") /\ UNCHANGED <<mu, loop, nops, nread, hist, stopped>>
FEnd(t) == pc[t] = "fend" /\ CallEnd(t) /\ Go(t, "fret") /\ UNCHANGED <<mu, loop, nops, nread, hist, stopped>>
FRet(t) == pc[t] = "fret" /\ CallR(t) /\ Go(t, "idle") /\ mu' = 0 /\ UNCHANGED <<loop, nops, nread, hist, stopped>>
TickA == Tick(R) /\ hist' = [hist EXCEPT !.slow = @ \/ loop.st # "idle"] /\ UNCHANGED <<mu, pc, loop, nops, nread, stopped>>
Time == now < MaxNow /\ Later(now + 1) /\ loop.st # "read" /\ UNCHANGED Aux
MCNext == TickA \/ Time \/ LoopTake \/ LoopRead \/ LoopX \/ LoopE
          \/ \E t \in Threads : PAdd(t) \/ SetI(t) \/ Lock(t) \/ DoStart(t) \/ DoStop(t) \/ DoFlush(t) \/ FRead(t) \/ FExp(t) \/ FEnd(t) \/ FRet(t)
MCSpec == MCInit /\ [][MCNext]_mcv
Fair == MCSpec /\ WF_mcv(LoopTake \/ LoopRead \/ LoopX \/ LoopE) /\ \A t \in Threads : WF_mcv(DoStart(t) \/ DoStop(t) \/ DoFlush(t) \/ FRead(t) \/ FExp(t) \/ FEnd(t) \/ FRet(t))
(* what the implementation's steps do is what the specification allows: the export is never refused *)
ExportAllowed == /\ (loop.st = "read" /\ loop.ps = {}) => ENABLED LoopX
                 /\ \A t \in Threads : pc[t] = "fexp" => ENABLED FExp(t)
Quiet == stopped => ~rdr[R].run /\ ~rdr[R].busy /\ loop.st \in {"none", "idle"}
Once == (rdr[R].run /\ ~hist.slow /\ rdr[R].next > now) => hist.n + (IF rdr[R].buf THEN 1 ELSE 0) = (now - hist.t0) \div rdr[R].iv
FlushIdle == \A t \in Threads : pc[t] \in {"fgo", "fexp", "fend"} => ~rdr[R].run
NoOrphan == (loop.st \in {"none", "idle", "busy"} /\ \A t \in Threads : pc[t] # "fexp") => reads = << >>
StopReturns == \A t \in Threads : (pc[t] = "stop") ~> (pc[t] = "idle" \/ nread >= MaxReads - 1)
=============================================================================
