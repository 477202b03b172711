------------------------------- MODULE Measure -------------------------------
(* Measures (stats): a name stands for one measure in the whole process. The first  *)
(* handle made for a name fixes its description and unit; every later handle, of      *)
(* either kind, is a handle of that measure; what is recorded through any handle       *)
(* reaches the views of the name that are registered.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES desc,    \* name -> description and unit, once made
          views,   \* name -> a view of it is registered
          began, done  \* name -> record calls begun, returned
msvars == <<desc, views, began, done>>
MPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At0(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
MInit == desc = << >> /\ views = {} /\ began = << >> /\ done = << >>
Make(n, d) == desc' = (IF n \in DOMAIN desc THEN desc ELSE MPut(desc, n, d)) /\ UNCHANGED <<views, began, done>>
RegView(n) == views' = views \cup {n} /\ UNCHANGED <<desc, began, done>>
RecBegin(n, k) == began' = MPut(began, n, At0(began, n) + k) /\ UNCHANGED <<desc, views, done>>
RecEnd(n, k) == done' = MPut(done, n, At0(done, n) + k) /\ UNCHANGED <<desc, views, began>>
=============================================================================
