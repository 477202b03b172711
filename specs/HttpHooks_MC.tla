---------------------------- MODULE HttpHooks_MC -----------------------------
(* Every bounded order of hooks of several requests, beside the annotation buffers of  *)
(* spans that keep the latest Max; each hook's annotation is looked at, too.              *)
EXTENDS HttpHooks
CONSTANTS Ids, MaxOps, Max
VARIABLES buf, drop, ops
mcv == <<hk, buf, drop, ops>>
Calls == {<<"GetConn", <<"h:1">>>>, <<"GotConn", <<"false", "true", "1s">>>>, <<"PutIdleConn", <<"x">>>>, <<"DNSDone", <<"", "1.1.1.1", "::1">>>>,
          <<"WroteRequest", <<"">>>>, <<"WroteHeaderField", <<"k">>>>}
MCInit == KInit /\ buf = [i \in Ids |-> << >>] /\ drop = [i \in Ids |-> 0] /\ ops = 0
Bg == \E i \in Ids, on \in BOOLEAN, he \in BOOLEAN : Begin(i, on, he, TRUE, TRUE) /\ UNCHANGED <<buf, drop, ops>>
Mk == \E i \in Ids : Make(i) /\ UNCHANGED <<buf, drop, ops>>
Cl == ops < MaxOps /\ ops' = ops + 1 /\ \E i \in DOMAIN hk, c \in Calls :
        /\ Called(i, <<c>>, << >>)
        /\ IF hk[i].on /\ hk[i].live /\ Annot(c) # {}
           THEN LET b == Append(buf[i], CHOOSE x \in Annot(c) : TRUE) IN
                IF Len(b) > Max THEN buf' = [buf EXCEPT ![i] = Tail(b)] /\ drop' = [drop EXCEPT ![i] = @ + 1]
                ELSE buf' = [buf EXCEPT ![i] = b] /\ UNCHANGED drop
           ELSE UNCHANGED <<buf, drop>>
En == \E i \in DOMAIN hk : End(i) /\ UNCHANGED <<buf, drop, ops>>
MCNext == Bg \/ Mk \/ Cl \/ En
MCSpec == MCInit /\ [][MCNext]_mcv
Agree == \A i \in DOMAIN hk : Shown(i, Max, buf[i], drop[i])
Silent == \A i \in DOMAIN hk : ~hk[i].on => buf[i] = << >>
(* what happens to a request shows at no other *)
Apart == [][\A i, j \in DOMAIN hk : (i # j /\ hk'[i].seq # hk[i].seq) => hk'[j] = hk[j]]_mcv
Ended == [][\A i \in DOMAIN hk : ~hk[i].live => hk'[i].seq = hk[i].seq]_mcv
(* a message names its hook, and no two hooks look the same *)
Names == \A c, d \in Calls : \A x \in Annot(c), y \in Annot(d) : x[1] = c[1] /\ (x = y => c = d)
=============================================================================
