----------------------------- MODULE TestExporter -----------------------------
(* metric/test.Exporter: the latest point of every time series ever exported, by     *)
(* metric name and the set of present labels. A text is a sequence of parts; two are   *)
(* the same iff they are equal as sequences.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE pts   \* <<name, set of <<key, value>>>> -> value of the last point
EInit == pts = << >>
Id(name, labels) == <<name, {labels[i] : i \in 1..Len(labels)}>>
(* data: sequence of <<name, labels, value>>, one per time series *)
RECURSIVE Fold(_, _)
Fold(f, data) == IF data = << >> THEN f
  ELSE LET k == Id(data[1][1], data[1][2]) IN Fold([x \in DOMAIN f \cup {k} |-> IF x = k THEN data[1][3] ELSE f[x]], Tail(data))
Export(data) == pts' = Fold(pts, data)
Point(name, labels) == LET k == Id(name, labels) IN IF k \in DOMAIN pts THEN <<pts[k]>> ELSE << >>
=============================================================================
