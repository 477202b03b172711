--------------------------- MODULE TestExporter_MC ---------------------------
(* The exporter keeps a map from signatures to points. The signature must separate  *)
(* label sets: Sig quotes every part, Flat (the original code) concatenates them.     *)
EXTENDS TestExporter
CONSTANTS Letters, MaxLen, MaxExp
VARIABLES tab, n
mcv == <<pts, tab, n>>
Words == UNION {[1..k -> Letters] : k \in 0..MaxLen}
Quote(w) == <<0>> \o w \o <<0>>
Pairs == {p \in Words \X Words : p[1] # << >>}
Labels == {<< >>} \cup {<<p>> : p \in Pairs}
Sig(name, ls) == Quote(name) \o (IF ls = << >> THEN << >> ELSE Quote(ls[1][1]) \o Quote(ls[1][2]))
Flat(name, ls) == name \o <<9>> \o (IF ls = << >> THEN << >> ELSE ls[1][1] \o ls[1][2])
Names == {w \in Words : Len(w) = 1}
MCInit == EInit /\ tab = << >> /\ n = 0
MCNext == /\ n < MaxExp /\ n' = n + 1
          /\ \E a \in Names, l \in Labels : /\ Export(<< <<a, l, n>> >>)
               /\ tab' = [x \in DOMAIN tab \cup {Sig(a, l)} |-> IF x = Sig(a, l) THEN n ELSE tab[x]]
MCSpec == MCInit /\ [][MCNext]_mcv
Refines == \A a \in Names, l \in Labels : LET p == Point(a, l) IN
             IF p = << >> THEN Sig(a, l) \notin DOMAIN tab ELSE tab[Sig(a, l)] = p[1]
Separates == n = 0 => \A l, m \in Labels : (Sig(<<1>>, l) = Sig(<<1>>, m)) => l = m
FlatCollides == n = 0 => \E l, m \in Labels : l # m /\ Flat(<<1>>, l) = Flat(<<1>>, m)
=============================================================================
