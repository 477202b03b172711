----------------------------- MODULE RunMetrics ------------------------------
(* plugin/runmetrics: Enable and Disable of the runtime metrics producer.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cur,   \* options of the enabled producer, or Off
          here,  \* it is registered with the global manager (a user may have deleted it)
          others \* the other producers registered
xvars == <<cur, here, others>>
Off == [on |-> FALSE]
XInit == cur = Off /\ here = FALSE /\ others = {}
Enable(o) == cur' = [on |-> TRUE, o |-> o] /\ here' = TRUE /\ UNCHANGED others
Disable == cur' = Off /\ here' = FALSE /\ UNCHANGED others
DelRuntime == here' = FALSE /\ UNCHANGED <<cur, others>>
AddOther(p) == others' = others \cup {p} /\ UNCHANGED <<cur, here>>
DelOther(p) == others' = others \ {p} /\ UNCHANGED <<cur, here>>

(* name, unit, the runtime statistic it shows, and whether it becomes a          *)
(* cumulative with UseDerivedCumulative                                          *)
B == "By"
D == "1"
T == "ms"
G == FALSE
C == TRUE
Memory == <<
  <<"process/memory_alloc", B, "Alloc", G>>, <<"process/total_memory_alloc", B, "TotalAlloc", C>>, <<"process/sys_memory_alloc", B, "Sys", G>>,
  <<"process/memory_lookups", D, "Lookups", C>>, <<"process/memory_malloc", D, "Mallocs", C>>, <<"process/memory_frees", D, "Frees", C>>,
  <<"process/heap_alloc", B, "HeapAlloc", G>>, <<"process/sys_heap", B, "HeapSys", G>>, <<"process/heap_idle", B, "HeapIdle", G>>,
  <<"process/heap_inuse", B, "HeapInuse", G>>, <<"process/heap_objects", D, "HeapObjects", G>>, <<"process/heap_release", B, "HeapReleased", C>>,
  <<"process/stack_inuse", B, "StackInuse", G>>, <<"process/sys_stack", B, "StackSys", G>>, <<"process/stack_mspan_inuse", B, "MSpanInuse", G>>,
  <<"process/sys_stack_mspan", B, "MSpanSys", G>>, <<"process/stack_mcache_inuse", B, "MCacheInuse", G>>, <<"process/sys_stack_mcache", B, "MCacheSys", G>>,
  <<"process/gc_sys", B, "GCSys", G>>, <<"process/other_sys", B, "OtherSys", G>>, <<"process/num_gc", D, "NumGC", C>>,
  <<"process/num_forced_gc", D, "NumForcedGC", C>>, <<"process/next_gc_heap_size", B, "NextGC", G>>, <<"process/last_gc_finished_timestamp", T, "LastGCms", G>>,
  <<"process/pause_total", T, "PauseTotalms", C>>, <<"process/gc_cpu_fraction", D, "GCCPUFraction", G>> >>
Cpu == << <<"process/cpu_goroutines", D, "NumGoroutine", G>>, <<"process/cpu_cgo_calls", D, "NumCgoCall", G>> >>
(* types as in metricdata: 0 int64 gauge, 1 float64 gauge, 3 int64 cumulative    *)
TypeOf(m, der) == IF m[3] = "GCCPUFraction" THEN 1 ELSE IF m[4] /\ der THEN 3 ELSE 0
Rng(q) == {q[i] : i \in 1..Len(q)}
Selected(o) == (IF o.mem THEN Rng(Memory) ELSE {}) \cup (IF o.cpu THEN Rng(Cpu) ELSE {})
(* what a read of the producer gives: name, unit, type and the statistic         *)
Wanted(o) == {[n |-> o.pfx \o m[1], u |-> m[2], ty |-> TypeOf(m, o.der), f |-> m[3]] : m \in Selected(o)}
Registered == (IF here THEN 1 ELSE 0)
=============================================================================
