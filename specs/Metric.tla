------------------------------ MODULE Metric --------------------------------
(* The metric registry (metric): metrics by name, their entries by label       *)
(* values, the updates of gauges and cumulatives, derived entries, and reads,  *)
(* which visit each metric and each entry at a moment of their own.            *)
(* Label values are numbers: 0 absent, otherwise one number per string.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES now, reg,   \* metric in the registry, by name
          met,        \* all metrics created: [name, ty, keys, const, desc, unit, start]
          ent,        \* entries by metric and label values: [v |-> value] or [f |-> function]
          fnv,        \* current value of the functions of derived entries
          rd          \* reads in progress: what each may return
mvars == <<now, reg, met, ent, fnv, rd>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
(* types: 1 gauge int64, 2 gauge float64, 3/4 derived gauges, 5 cumulative     *)
(* int64, 6 cumulative float64, 7/8 derived cumulatives                         *)
Derived(ty) == ty \in {3, 4, 7, 8}
Cumul(ty) == ty >= 5
TypeName(ty) == CASE ty \in {1, 3} -> "GaugeInt64" [] ty \in {2, 4} -> "GaugeFloat64"
                  [] ty \in {5, 7} -> "CumulativeInt64" [] ty \in {6, 8} -> "CumulativeFloat64"
Vs(e) == IF "f" \in DOMAIN e THEN {} ELSE IF e.v < 0 THEN {0} ELSE {e.v}
Fs(e) == IF "f" \in DOMAIN e THEN {e.f} ELSE {}

(* ---- reads ---------------------------------------------------------------- *)
(* old: entries and metrics that were there at the start; ms: metrics seen under *)
(* each name; vs: values each entry had meanwhile; fs, fv: functions a derived   *)
(* entry had meanwhile and the values of the functions (a read looks up the       *)
(* function first and calls it later)                                              *)
NewRead == [at |-> now, old |-> [n \in DOMAIN reg |-> TRUE], ms |-> [n \in DOMAIN reg |-> {reg[n]}],
            oldE |-> [g \in DOMAIN met |-> DOMAIN ent[g]],
            vs |-> [g \in DOMAIN met |-> [k \in DOMAIN ent[g] |-> Vs(ent[g][k])]],
            fs |-> [g \in DOMAIN met |-> [k \in DOMAIN ent[g] |-> Fs(ent[g][k])]],
            fv |-> [f \in DOMAIN fnv |-> {fnv[f]}]]
Seen(x, g, k) == IF g \in DOMAIN x /\ k \in DOMAIN x[g] THEN x[g][k] ELSE {}
(* every change is seen by the reads in progress (evaluated in the new state) *)
SeeAll ==
  rd' = [t \in DOMAIN rd |-> [rd[t] EXCEPT
     !.ms = [n \in DOMAIN reg' |-> (IF n \in DOMAIN rd[t].ms THEN rd[t].ms[n] ELSE {}) \cup {reg'[n]}],
     !.vs = [g \in DOMAIN met' |-> [k \in DOMAIN ent'[g] |-> Seen(rd[t].vs, g, k) \cup Vs(ent'[g][k])]],
     !.fs = [g \in DOMAIN met' |-> [k \in DOMAIN ent'[g] |-> Seen(rd[t].fs, g, k) \cup Fs(ent'[g][k])]],
     !.fv = [f \in DOMAIN fnv' |-> (IF f \in DOMAIN rd[t].fv THEN rd[t].fv[f] ELSE {}) \cup {fnv'[f]}]]]

(* ---- registry ------------------------------------------------------------- *)
AddErr(name, ty) == name \in DOMAIN reg /\ met[reg[name]].ty # ty
AddMetric(g, d) ==   \* d: [name, ty, keys, const, desc, unit]
  IF AddErr(d.name, d.ty) THEN UNCHANGED mvars
  ELSE /\ met' = Put(met, g, [name |-> d.name, ty |-> d.ty, keys |-> d.keys, const |-> d.const, desc |-> d.desc, unit |-> d.unit, start |-> now])
       /\ reg' = Put(reg, d.name, g) /\ ent' = Put(ent, g, << >>) /\ UNCHANGED <<now, fnv>> /\ SeeAll
Full(g, lv) == met[g].const \o lv
Arity(g, lv) == Len(Full(g, lv)) = Len(met[g].keys)
GetEntry(g, lv) ==
  LET k == Full(g, lv) IN
  IF ~Arity(g, lv) \/ k \in DOMAIN ent[g] THEN UNCHANGED mvars
  ELSE ent' = [ent EXCEPT ![g] = Put(@, k, [v |-> 0])] /\ UNCHANGED <<now, reg, met, fnv>> /\ SeeAll
Upsert(g, lv, f) ==   \* f = 0: no function
  IF ~Arity(g, lv) \/ f = 0 THEN UNCHANGED mvars
  ELSE ent' = [ent EXCEPT ![g] = Put(@, Full(g, lv), [f |-> f])] /\ UNCHANGED <<now, reg, met, fnv>> /\ SeeAll
Write(g, k, v) == ent' = [ent EXCEPT ![g][k].v = v] /\ UNCHANGED <<now, reg, met, fnv>> /\ SeeAll
SetVal(g, k, v) == Write(g, k, v)
AddVal(g, k, v) == Write(g, k, ent[g][k].v + v)
IncVal(g, k, v) == Write(g, k, IF v > 0 THEN ent[g][k].v + v ELSE ent[g][k].v)
SetFn(f, v) == fnv' = Put(fnv, f, v) /\ UNCHANGED <<now, reg, met, ent>> /\ SeeAll

(* ---- what a read may return ------------------------------------------------ *)
MetricOK(r, g, x) ==
  LET m == met[g] vs == r.vs[g] oldE == IF g \in DOMAIN r.oldE THEN r.oldE[g] ELSE {} IN
  /\ x.name = m.name /\ x.desc = m.desc /\ x.unit = m.unit /\ x.ty = TypeName(m.ty) /\ x.keys = m.keys
  /\ \A i \in 1..Len(x.ts) : LET s == x.ts[i] IN
        /\ s.lv \in DOMAIN vs /\ s.np = 1
        /\ s.v \in vs[s.lv] \cup UNION {r.fv[f] : f \in r.fs[g][s.lv]}
        /\ (Cumul(m.ty) => s.st = m.start) /\ s.at = r.at
        /\ \A j \in 1..Len(x.ts) : j # i => x.ts[j].lv # s.lv
  /\ \A k \in oldE : \E i \in 1..Len(x.ts) : x.ts[i].lv = k
ReadOK(r, q) ==
  /\ \A i \in 1..Len(q) : q[i].name \in DOMAIN r.ms /\ \E g \in r.ms[q[i].name] : MetricOK(r, g, q[i])
  /\ \A i, j \in 1..Len(q) : i # j => q[i].name # q[j].name
  /\ \A n \in DOMAIN r.old : \E i \in 1..Len(q) : q[i].name = n
MInit == now = 0 /\ reg = << >> /\ met = << >> /\ ent = << >> /\ fnv = << >> /\ rd = << >>
=============================================================================
