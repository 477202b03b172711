#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- tracing
prop("C01", "Span identity and lineage",
 "Every started span has a span ID that is non-zero and different from every other span ID generated in the process; a span without a parent gets a fresh non-zero trace ID and no parent, and a span with a parent (local or remote) keeps the parent's trace ID, tracestate and all non-sampling option bits and records the parent's span ID and whether the parent was remote. "
 "An explicitly passed remote parent wins over any span in the context, a span started from a context becomes the current span of exactly the derived context, which keeps the caller's values, deadline and cancellation, and a completely empty remote parent counts as no parent. "
 "This holds for every tree of spans however many goroutines start and end spans at once.",
 ["programs", "schedules"], "all programs of StartSpan/StartSpanWithRemoteParent/NewContext/End over trees of contexts, local and remote parents, and all interleavings of concurrent starts",
 "unit tests start one or two spans each, sequentially; lineage over arbitrary trees and uniqueness under concurrent starts is not sampled",
 ["trace/trace.go", "trace/config.go", "trace/trace_api.go"],
 [("startSpanInternal", "trace/trace.go"), ("defaultIDGenerator", "trace/trace.go"), ("StartSpan/StartSpanWithRemoteParent", "trace/trace.go")],
 ["SpanContext() of the returned span", "exported SpanData", "FromContext"])
prop("C02", "Sampling decisions",
 "A sampler is consulted exactly once for a span that supplies one, has no parent, or has a remote parent (the supplied sampler beating the global default) and never for a local child without one, which inherits its parent's sampled bit; the sampler sees the span's name, IDs, parent context and remoteness, its answer is the span's sampled bit, and a span records events iff it is sampled or the local span store is on. "
 "The built-in probability sampler always samples when the parent is sampled, otherwise decides by trace ID alone, monotonically in the fraction, sampling about that fraction of uniformly random trace IDs, never at fraction <= 0 and always at >= 1.",
 ["programs", "inputs", "configurations"], "all start programs, sampler placements, default-sampler changes, trace IDs and fractions",
 "tests check a small table of parent/sampler combinations; they cannot cover histories of config changes or the relation between decisions at different fractions on the same ID",
 ["trace/trace.go", "trace/sampling.go", "trace/config.go"],
 [("startSpanInternal sampler choice", "trace/trace.go"), ("ProbabilitySampler", "trace/sampling.go")],
 ["SamplingParameters seen by the sampler", "SpanContext().IsSampled()", "IsRecordingEvents()"])
prop("C03", "Exactly-once export of ended sampled spans",
 "When a sampled span is ended for the first time, its data is delivered exactly once to every exporter registered at that moment and to no other; later or concurrent End calls deliver nothing more, and a span that was never ended or not sampled is never delivered. "
 "Registering and unregistering exporters are atomic: concurrent (un)registrations are never lost, registering twice delivers once, and after UnregisterExporter returns, spans whose End starts later are not delivered to it.",
 ["schedules", "programs"], "all interleavings of End (also several Ends of one span) with RegisterExporter/UnregisterExporter and with each other",
 "the tests end spans sequentially with a fixed exporter set; the guarantee quantifies over schedules and exporter-set histories",
 ["trace/trace.go", "trace/export.go"],
 [("Span.End endOnce", "trace/trace.go"), ("exportersMap copy-on-write", "trace/export.go")],
 ["Exporter.ExportSpan calls"])
prop("C04", "Exported span content reflects the recorded history",
 "A delivered span carries its start name unless renamed (then the last name), the last status set, its kind, the most recently set attributes (newest value per key, at most the attribute limit, least recently set keys dropped first), and the most recent annotations, message events and links in the order added, each capped at its limit with the dropped counts exact, the number of local children started, and an end time not before its start time; what the local span store shows of a recording span, sampled or not, is the same. "
 "Delivered data never changes afterwards, whatever is called on the span, and observing a live span (as zPages does) never changes what is eventually delivered; recording on a nil or non-recording span is a no-op.",
 ["histories", "configurations", "schedules"], "all sequences of recording calls, limits, observations of live spans, and concurrent recorders",
 "tests set a handful of attributes/annotations once with fixed limits; eviction order and drop accounting depend on the whole history and on limits",
 ["trace/trace.go", "trace/lrumap.go", "trace/evictedqueue.go"],
 [("lruMap", "trace/lrumap.go"), ("evictedQueue", "trace/evictedqueue.go"), ("makeSpanData", "trace/trace.go")],
 ["SpanData passed to exporters", "active spans reported to zPages"])
prop("C05", "Global trace configuration merges atomically",
 "ApplyConfig changes exactly the settings given (non-nil sampler or ID generator, positive limits) and keeps all others, concurrent ApplyConfig calls setting different fields all take effect, and every span uses the limits and ID generator in force when it was started for its whole life.",
 ["histories", "schedules", "configurations"], "all sequences and interleavings of ApplyConfig calls with span starts",
 "the tests apply one config at a time; merging histories and lost updates between concurrent calls are not sampled",
 ["trace/config.go", "trace/trace.go"],
 [("ApplyConfig", "trace/config.go"), ("startSpanInternal limits", "trace/trace.go")],
 ["limits observed through exported SpanData", "IDs of started spans", "sampler consulted"])
prop("C06", "Local span store bookkeeping",
 "With the local span store on, the active spans reported per start-name are exactly those started and not yet ended, and each ended span is offered to exactly one bucket of its start-name: the error bucket of its status code if non-zero, else the latency bucket containing its duration. "
 "A bucket accepts a span iff at least a second separates its end time from the last accepted one's, holds at most its configured number of the most recently accepted spans (resizing keeps the newest, sizes clamp to [0,100000]), queries by error code or latency range return exactly the stored spans with that code (0 = any) or with latency within [min,max] (max 0 = unbounded), and summary counts agree with them. "
 "This holds for concurrent starts, ends, queries and resizes, and for spans still running when the store is enabled or disabled.",
 ["histories", "schedules", "configurations"], "all histories of spans with arbitrary names/latencies/statuses, bucket configurations and queries, and their interleavings",
 "the one span-store test adds a few spans; bucket rotation, resizing and rate limiting depend on long histories and clock values",
 ["trace/spanstore.go", "trace/spanbucket.go", "trace/trace.go"],
 [("spanStore.finished/add", "trace/spanstore.go"), ("bucket", "trace/spanbucket.go")],
 ["internal Trace interface used by zPages"],
 [("spanStores", "per-name stores of active spans and error/latency buckets", "trace/spanstore.go")])
prop("C07", "TraceZ page agrees with the span store",
 "For every span name the TraceZ summary shows exactly the number of active spans, of stored spans per displayed latency range, and of stored error spans, and following any of its links (active, latency bucket n, errors) lists exactly the spans counted there, with their trace IDs and span IDs. "
 "A request for an unknown name, type or subtype yields an empty list and never a crash.",
 ["histories", "inputs"], "all span-store contents and all request parameters",
 "the zpages test renders one page with one span",
 ["zpages/tracez.go", "zpages/zpages.go", "trace/spanstore.go"],
 [("traceSpans/getSummaryPageData", "zpages/tracez.go")],
 ["HTTP response body of /tracez"])
# ---------------------------------------------------------------- tags
prop("C08", "Tag map mutation semantics",
 "tag.New applies its mutators in order to a copy of the context's tag map: Insert adds only if absent, Update changes only if present, Upsert always sets, Delete removes; each takes the metadata given (default unlimited propagation). "
 "The parent context's map never changes, an invalid key or value (not 1-255 printable ASCII for keys, not 0-255 for values) makes the whole call fail and return the original context, FromContext/Value/String report exactly the resulting tags, and tag.Do runs its function once with them as profiler labels.",
 ["histories", "inputs"], "all sequences of mutators, all keys and values, chains and trees of contexts",
 "tests list about a dozen mutator sequences; order, metadata and immutability over arbitrary trees are not covered",
 ["tag/map.go", "tag/context.go", "tag/validate.go", "tag/metadata.go", "tag/key.go"],
 [("New/mutators", "tag/map.go"), ("checkKeyName/checkValue", "tag/validate.go")],
 ["FromContext(ctx).Value, Map.String, DecodeEach of Encode"])
prop("C09", "Tag wire codec is total and faithful",
 "Decoding any byte string terminates without panicking and returns either an error or a map of only valid tags where the last value of a repeated key wins; no bytes give an empty map, and an unknown field or a wrong version ends in an error or the documented prefix, never in garbage tags. "
 "Encoding a map and decoding it yields exactly its tags whose metadata allows unlimited propagation, and no others.",
 ["inputs"], "all byte strings and all tag maps",
 "tests decode a handful of valid encodings; lengths, truncation and overflow of the varints are input-space properties",
 ["tag/map_codec.go"], [("Decode/DecodeEach/Encode", "tag/map_codec.go")], ["result of Decode/Encode"])
# ---------------------------------------------------------------- stats/view
prop("C10", "View aggregation counts each measurement exactly once",
 "Every measurement recorded while a view of its measure is registered contributes exactly once to that view's row for the view's tag keys and the context's tags (after applying the call's own tag mutators), tags that are absent or have an empty value, and no others, being left out, and to no other row; views of other measures and unregistered views are unaffected. "
 "Count, sum and last-value rows equal the count, sum and most recent of exactly those measurements, for any interleaving of recording goroutines and for recording into separate meters; a call whose tag mutators fail records nothing, and returns the error if a registered view uses one of its measures.",
 ["schedules", "histories", "programs"], "all interleavings of Record calls with Register/Unregister/RetrieveData, all tag combinations",
 "tests record a few values sequentially into one view",
 ["stats/record.go", "stats/view/worker.go", "stats/view/collector.go", "stats/view/view.go", "stats/view/aggregation_data.go", "internal/tagencoding/tagencoding.go"],
 [("worker command queue", "stats/view/worker.go"), ("collector.addSample", "stats/view/collector.go"), ("encodeWithKeys/decodeTags", "stats/view/collector.go")],
 ["RetrieveData rows", "Meter.RetrieveData"])
prop("C11", "Distribution aggregation is consistent",
 "For a distribution view each recorded value v falls in exactly one bucket, the i-th such that bound[i-1] <= v < bound[i] (bounds as given, a leading zero bound merged away), bucket counts sum to the count, and count, min, max, mean and sum of squared deviations are those of the recorded values. "
 "Each bucket keeps as exemplar the last value that was recorded into it with attachments, together with that call's attachments, and row snapshots handed out are not changed by later recordings.",
 ["inputs", "histories"], "all bound sequences and all sequences of recorded values",
 "tests use one or two fixed bound lists and few values",
 ["stats/view/aggregation.go", "stats/view/aggregation_data.go", "stats/view/view.go"],
 [("DistributionData.addSample/addToBucket", "stats/view/aggregation_data.go")], ["RetrieveData rows", "exported ViewData"])
prop("C12", "View registration lifecycle",
 "Registering a view makes it findable by name until unregistered; registering an equal view (same name, measure and aggregation type and bounds) again is a no-op, a different view under a taken name is refused with an error and leaves the existing one as it was, and an invalid view makes the whole call fail with nothing registered. "
 "Unregistering removes exactly the named view with its data, so that a later registration starts from zero, and recording a measure that no registered view uses has no effect.",
 ["histories", "schedules"], "all histories of Register/Unregister/Find/RetrieveData/Record and their interleavings",
 "tests cover a few short sequences",
 ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/view.go"],
 [("tryRegisterView", "stats/view/worker.go"), ("registerViewReq/unregisterFromViewReq", "stats/view/worker_commands.go")], ["Find, RetrieveData, Register error"])
prop("C13", "Periodic and final export of view data",
 "While views are registered, each reporting period every registered exporter receives for every registered view with data one snapshot of all rows, cumulative from the view's registration start; unregistering a view delivers its remaining data once to the exporters registered then, and afterwards nothing is delivered for that view. "
 "Exporters registered or unregistered between periods are included or excluded from the next one, a changed reporting period takes effect, and a snapshot once delivered never changes.",
 ["histories", "schedules", "configurations"], "all histories of Record/Register/Unregister/exporter changes/period changes over virtual time",
 "tests sleep through one or two real periods",
 ["stats/view/worker.go", "stats/view/export.go", "stats/view/worker_commands.go"],
 [("reportUsage/reportView", "stats/view/worker.go"), ("setReportingPeriod", "stats/view/worker_commands.go")], ["ExportView calls"])
prop("C14", "Meter metrics mirror its views",
 "Reading a meter yields exactly one metric per registered view with data, whose descriptor has the view's name and description, the unit and type implied by measure and aggregation, and the view's tag keys as label keys; each row becomes one time series whose label values line up with the label keys (absent and empty tags marked absent), whose point equals the row, and whose start time is that of the row's first measurement since the view was registered (none for a last value). "
 "Every metric carries the meter's resource.",
 ["histories", "configurations"], "all combinations of measure type, unit, aggregation, tag keys and recorded tags, over histories of registrations",
 "tests convert a fixed list of views",
 ["stats/view/view_to_metric.go", "stats/view/worker.go", "stats/view/aggregation_data.go"],
 [("viewToMetric/rowToTimeseries", "stats/view/view_to_metric.go"), ("worker.Read", "stats/view/worker.go")], ["Meter as metricproducer: Read()"])
prop("C15", "Meter lifecycle and isolation",
 "Independent meters share nothing: registering, recording, exporting or stopping one never affects another, and a meter is a metric producer exactly from Start to Stop. "
 "No call on a started meter (made from outside its exporters) panics or hangs, including calls concurrent with or after Stop and repeated Stop, and Stop returns only after its last report is complete.",
 ["schedules", "histories"], "all interleavings of meter operations with Stop, over several meters",
 "the tests start and stop meters around the test body only",
 ["stats/view/worker.go", "stats/view/worker_commands.go", "metric/metricproducer/manager.go"],
 [("worker.start/stop", "stats/view/worker.go")], ["return of each call", "metricproducer.GlobalManager().GetAll()"])
# ---------------------------------------------------------------- metric
prop("C16", "Gauges and cumulatives report exactly what was applied",
 "A gauge entry reads as the last Set with every later Add applied (as 0 while that is negative), a cumulative entry reads as the sum of its non-negative Incs (negative Incs ignored) and never decreases, and a derived entry reads its function's current value, or the function of the last upsert. "
 "This holds for any number of goroutines updating and reading at once: no update is lost or applied twice, and a read sees a value some prefix of updates produces.",
 ["schedules", "histories"], "all interleavings of Set/Add/Inc/Read on int64 and float64 entries",
 "tests update entries from one goroutine",
 ["metric/gauge.go", "metric/cumulative.go", "metric/common.go"],
 [("atomic CAS loops", "metric/gauge.go, metric/cumulative.go")], ["Registry.Read()"])
prop("C17", "Metric registry identity of metrics and label sets",
 "Within a metric, entries with the same label values (present and absent being different from each other and from the empty string) are the same entry and entries with different label values are different, for every string; reading yields each entry once with exactly its label values and the constant labels. "
 "Adding a metric under the name of one with another type is an error and changes nothing, with the same type the new metric takes the name's place; a wrong number of label values is an error, and entries once created or upserted are present in every later read of their metric, also when other goroutines create or replace entries.",
 ["inputs", "schedules", "histories"], "all label strings, all interleavings of GetEntry/UpsertEntry/AddXxx/Read",
 "tests use short ASCII labels sequentially",
 ["metric/registry.go", "metric/common.go", "internal/tagencoding/tagencoding.go"],
 [("encodeLabelVals", "metric/common.go"), ("baseMetric.entryForValues/upsertEntry", "metric/common.go"), ("Registry.initBaseMetric", "metric/registry.go")], ["Registry.Read()"])
prop("C18", "Metric readers export every producer, once per interval, until stopped",
 "The producer manager holds each registered producer once until deleted, and reading exports the concatenation of what every producer registered then returns, once. "
 "An interval reader exports once per interval between Start and Stop, and once on Flush while it is not running (Flush of a running reader does nothing), refuses intervals below one second, a second Start or missing arguments with an error, never exports after Stop has returned, and no sequence or interleaving of Start, Stop and Flush, also on a nil reader, panics or hangs. Each export runs under one root span of its own that has the reader\'s span name and ends with it.",
 ["schedules", "histories", "configurations"], "all interleavings of manager changes, Start/Stop/Flush over virtual time",
 "tests run a real timer for a couple of ticks",
 ["metric/metricexport/reader.go", "metric/metricproducer/manager.go"],
 [("IntervalReader", "metric/metricexport/reader.go"), ("Manager", "metric/metricproducer/manager.go")], ["ExportMetrics calls", "Manager.GetAll"])
prop("C19", "Runtime metrics producer lifecycle",
 "After any sequence or interleaving of runmetrics Enable and Disable calls the global manager holds exactly one runtime-metrics producer if the last effective call was a successful Enable and none otherwise, and it produces exactly the metrics selected by that call's options, with the given prefix, each carrying values obtained at that read.",
 ["histories", "schedules", "configurations"], "all sequences and interleavings of Enable/Disable with all options",
 "tests call Enable once per option set",
 ["plugin/runmetrics/producer.go"], [("Enable/Disable", "plugin/runmetrics/producer.go")], ["metricproducer.GlobalManager().GetAll() and Read()"])
# ---------------------------------------------------------------- plugins
prop("C20", "HTTP server tracing",
 "ochttp.Handler starts one server span per non-health request, named by the formatter or path, whose parent is the propagated span context: as remote parent normally, and for a public endpoint as a link while the span is a new root. "
 "The handler gets the request unchanged but for its context, in which it sees that span; the span ends exactly once after the handler returns or panics, with request attributes, the status sent to the client mapped to the span status (free if the handler panics or hijacks before sending a header), and message events for the received and the sent parts of the bodies.",
 ["inputs", "programs"], "all request headers, handler behaviours (writes, statuses, panics) and Handler configurations",
 "tests serve a few fixed requests",
 ["plugin/ochttp/server.go", "plugin/ochttp/trace.go"], [("Handler.startTrace", "plugin/ochttp/server.go"), ("TraceStatus", "plugin/ochttp/trace.go")], ["exported spans"])
prop("C21", "HTTP server statistics",
 "Each non-health request served through ochttp.Handler records exactly once its count, latency, request size (if it has a body) and response size (all bytes actually written by any means), tagged with host, method, path, the status actually sent and the route set by WithRouteTag/SetRoute (the last one set by SetRoute), also when the handler panics or writes nothing; a path or route that no tag can have (over 255 bytes or not printable ASCII) leaves out only its own tag. "
 "The wrapped ResponseWriter behaves as the original: same bytes, status and headers reach the client, and it offers the optional interfaces (Flusher, Hijacker, CloseNotifier, Pusher, ReaderFrom) iff the original does.",
 ["inputs", "programs"], "all handler programs over the ResponseWriter and its optional interfaces",
 "tests use simple handlers only",
 ["plugin/ochttp/server.go", "plugin/ochttp/route.go", "plugin/ochttp/stats.go"], [("trackingResponseWriter", "plugin/ochttp/server.go")], ["recorded measurements", "bytes on the wire"])
prop("C22", "HTTP client tracing",
 "ochttp.Transport wraps each request in one client span that is a child of the context's span, injects exactly that span's context in the outgoing headers, and never modifies the caller's request; health check paths pass through untouched. "
 "The span ends exactly once: on transport error or when there is no response body, or at the body's EOF or Close, whichever comes first, with request and response attributes and the response's status (a read error before that replaces it); the body's bytes and errors reach the caller unchanged, and CancelRequest reaches the transport underneath.",
 ["inputs", "programs", "fault_sequences"], "all orders of Read/Close on the body, transport errors, nil bodies, configurations",
 "tests read a body to the end or close it, once",
 ["plugin/ochttp/client.go", "plugin/ochttp/trace.go", "plugin/ochttp/wrapped_body.go"], [("traceTransport/bodyTracker", "plugin/ochttp/trace.go")], ["exported spans", "request received by the base RoundTripper"])
prop("C23", "HTTP client statistics",
 "Each non-health request sent through ochttp.Transport records exactly once its sent bytes (the declared content length, 0 if unknown), received bytes (those read until the end, or the declared content length if none were read and the method is not HEAD), round-trip latency and completion, tagged with host, method, path and status (500 for a transport error), when the response body reaches EOF or is closed, or immediately on transport error or without a body; repeated Close or Read after the end records nothing more, and a path that no tag can have leaves out only its own tag.",
 ["inputs", "programs", "fault_sequences"], "all orders of Read/Close and failures",
 "tests exercise the full-read path",
 ["plugin/ochttp/client_stats.go", "plugin/ochttp/wrapped_body.go"], [("tracker.end", "plugin/ochttp/client_stats.go")], ["recorded measurements"])
prop("C24", "gRPC tracing",
 "Each RPC handled by the ocgrpc stats handlers has exactly one span per side, named after the method, ended exactly once at the RPC's end with the status of its error (not OK if the error has none), the client span a child of the caller's span and its context the only one carried in the request metadata, which keep the caller's other entries; the server span continues that context, or, for public endpoints, starts a new trace linking to it. "
 "Malformed or absent trace metadata yields a new root span and never a failure, and each message sent or received is one message event in order with its sizes.",
 ["programs", "inputs", "fault_sequences"], "all sequences of RPC stats events and incoming metadata",
 "tests replay one or two event sequences",
 ["plugin/ocgrpc/trace_common.go", "plugin/ocgrpc/client.go", "plugin/ocgrpc/server.go"], [("traceTagRPC/traceHandleRPC", "plugin/ocgrpc/trace_common.go")], ["exported spans", "outgoing metadata"])
prop("C25", "gRPC statistics",
 "Each RPC records at its end exactly once on each side the numbers of messages and bytes sent and received during that RPC, its latency, and (tagged by method, by the canonical status of its error and by the tags of its context) its completion, and at its begin that it started; counts of concurrent RPCs never mix, what comes after the end is not counted, and the predefined views show these numbers. "
 "The propagated tags of the caller's context reach the server's context, with the server's method, when the metadata carries them, and a missing or malformed tag payload never fails the RPC.",
 ["programs", "schedules", "inputs"], "all event sequences, concurrent RPCs, all tag payloads",
 "tests replay fixed event sequences",
 ["plugin/ocgrpc/stats_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go", "plugin/ocgrpc/client_metrics.go", "plugin/ocgrpc/server_metrics.go"],
 [("statsHandleRPC/handleRPCEnd", "plugin/ocgrpc/stats_common.go")], ["view rows", "tags in the handler context"])
# ---------------------------------------------------------------- propagation
prop("C26", "Trace context propagation round-trips",
 "For every valid span context, writing it with a propagator (binary, B3, W3C tracecontext, Stackdriver) and reading the result back with the same propagator yields the same trace ID, span ID and sampled bit (and, for tracecontext, the same tracestate if it is at most 512 characters long, for all but B3 the low eight option bits), into a request holding any other or older headers.",
 ["inputs"], "all span contexts and all tracestates",
 "tests round-trip one or two fixed contexts",
 ["trace/propagation/propagation.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go"],
 [("Binary/FromBinary", "trace/propagation/propagation.go"), ("SpanContextToRequest/FromRequest", "plugin/ochttp/propagation")], ["SpanContextFromRequest result"])
prop("C27", "Malformed trace headers are rejected, never misread",
 "For every header value, parsing terminates without panicking and yields either nothing or the span context the format's grammar assigns to it: wrong lengths, non-hex digits, missing or superfluous fields, forbidden versions and all-zero IDs (where the format forbids them) are rejected. "
 "An invalid tracestate never invalidates a good traceparent and is dropped whole.",
 ["inputs"], "all header strings",
 "tests list a few malformed headers",
 ["trace/propagation/propagation.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go"],
 [("header parsers", "plugin/ochttp/propagation")], ["SpanContextFromRequest result"])
prop("C28", "Tracestate list semantics",
 "tracestate.New returns the given entries in order followed by the parent's entries whose keys are not redefined, or an error and no tracestate if any entry is malformed, a key repeats among the given entries, or the result exceeds 32 entries; neither the parent nor the caller's slices are ever modified, and nil parent behaves as empty.",
 ["inputs", "histories"], "all entry lists, parents and chains of derived tracestates",
 "tests list a few entry lists",
 ["trace/tracestate/tracestate.go"], [("New/add/containsDuplicateKey", "trace/tracestate/tracestate.go")], ["Entries()"])
prop("C29", "Resource detection, merge and label codec",
 "Merging resources gives the first non-empty type and the union of labels where the first resource to define a label wins, without modifying any input; a multi-detector passes its context to its detectors, runs them in order, each once, merges in that order (no resource is neutral; nothing found is no resource and no error) and stops with the error of the first that fails and no resource. "
 "Decoding encoded labels gives back exactly the labels, for every map of printable ASCII labels (keys of 1 to 256 characters without spaces, quotes, commas and equal signs; values of at most 256 characters), and equal maps have equal encodings. DecodeLabels accepts a comma-separated list of such key=\"value\" labels, with blanks around labels, and commas after the last one, allowed, and gives an error and no labels for malformed text (a label without =\" or closing quote, text between a value and the next comma, keys or values over 256 characters, non-ASCII bytes or invalid escapes in values); it never panics. The environment detector gives the trimmed OC_RESOURCE_TYPE and the decoded OC_RESOURCE_LABELS, or an error and no resource if these are malformed, and depends on nothing else.",
 ["inputs", "histories"], "all label maps, all label texts, all detector lists",
 "tests use a few examples",
 ["resource/resource.go"], [("merge/DecodeLabels/EncodeLabels/FromEnv/MultiDetector", "resource/resource.go")], ["function results"])
prop("C30", "RpcZ page agrees with the recorded RPC statistics",
 "For every direction (sent, received) and method, the RpcZ page (text and HTML) has exactly one row, rows are in the order of methods, and its total columns equal what the latest delivered data of the ocgrpc views says: the number of RPCs, of RPCs with a status other than OK, the mean latency, and RPC, input and output rates since the start (total divided by the time since the program start, at the delivery). Sent rows come from client views and received rows from server views; input is what was received and output is what was sent; other views and tags have no influence. Hence once all recorded RPCs are collected and delivered the counts, errors and mean latencies are those of the RPCs recorded; and pages read during concurrent recording lie between the RPCs certainly delivered and the RPCs begun. The minute and hour columns are documented as not implemented and the unit labels are not part of this property.",
 ["histories", "schedules"], "all histories of deliveries over virtual time; all interleavings of recording, delivery and page reads",
 "the rpcz test feeds a single batch",
 ["zpages/rpcz.go"], [("snapExporter.ExportView/ statSnapshot", "zpages/rpcz.go")], ["HTTP response body of /rpcz, WriteTextRpczPage"])
# ---------------------------------------------------------------- measures and test exporter
prop("C31", "One measure per name",
 "All handles made for the same name, with stats.Int64, stats.Float64 or both, by whatever goroutine and before or after views of it are registered, are handles of one measure: its description and unit are those of the first made, and a view of any handle collects exactly what is recorded through all of them while it is registered. "
 "The options of the handle used decide how its value is recorded (an int64 handle's integer value arrives as that number), and other names are never affected.",
 ["histories", "schedules"], "all orders and interleavings of making handles, registering views and recording",
 "tests make each measure once",
 ["stats/measure.go", "stats/measure_int64.go", "stats/measure_float64.go", "stats/record.go"], [("registerMeasureHandle/Int64/Float64", "stats/measure.go")], ["Name/Description/Unit of handles, view rows"])
prop("C32", "The in-memory metrics exporter keeps the latest point of each time series",
 "After any sequence of exports to a metric/test Exporter, directly or by ReadAndExport, GetPoint for a metric name and a set of labels gives the last point of the time series with exactly that name and those labels (absent labels left out, order irrelevant) most recently exported, and nothing if none was; different names or label sets never share a point. ReadAndExport shows everything recorded before it was called.",
 ["histories", "inputs"], "all histories of exports and all names and labels",
 "tests look up a few distinct series",
 ["metric/test/exporter.go"], [("ExportMetrics/GetPoint/labelSignature", "metric/test/exporter.go")], ["GetPoint results"])
prop("C33", "Traces continue across chained HTTP services",
 "For every web of services whose requests go through ochttp.Transport and are served by ochttp.Handler, concurrently and over shared connections, each request's client span is a child of exactly the span current in its caller's context (also when it was sent by following a redirect), and the server span of that request is a remote child of exactly that client span with its trace ID, its sampled bit deciding as the samplers say and, for tracecontext, its tracestate; a public endpoint starts a new trace linking to it, and endpoints of another propagation format, or requests without trace headers, start a new trace. "
 "Health check requests carry and create no span. Spans of concurrent requests never mix, all spans of a trace form one tree, and every sampled span, and no other, is exported exactly once with that lineage.",
 ["programs", "schedules", "configurations"], "all call webs (fan-out, nesting, redirects, aborted handlers, foreign callers), formats, samplers and interleavings",
 "tests send single requests through one transport and one handler",
 ["plugin/ochttp/client.go", "plugin/ochttp/trace.go", "plugin/ochttp/server.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go", "trace/trace.go"],
 [("traceTransport.RoundTrip, Handler.startTrace", "plugin/ochttp")], ["span contexts seen by base transports and handlers", "exported spans"])
prop("C34", "HTTP client trace hooks annotate their own request's span",
 "With Transport.NewClientTrace set to NewSpanAnnotatingClientTrace (or NewSpanAnnotator), which is asked once per non-health request with that request and its client span, every httptrace hook called for a request until its span ends adds exactly one annotation, named after the hook and with attributes that give its arguments (hosts, addresses, reuse, and errors if any), to that request's span and to no other, in the order of the calls; the two hooks about single headers and 1xx responses add none. "
 "The caller's own hooks in the request's context still get every call once, and without NewClientTrace nothing is annotated.",
 ["programs", "schedules", "inputs"], "all sequences and interleavings of hook calls over concurrent requests",
 "the tests look at one request to a test server",
 ["plugin/ochttp/span_annotating_client_trace.go", "plugin/ochttp/trace.go"], [("spanAnnotator", "plugin/ochttp/span_annotating_client_trace.go")], ["annotations of exported spans"])
# ---------------------------------------------------------------- pluggable tracer
prop("C35", "A replaced tracer sees every call once",
 "With any trace.DefaultTracer installed, each call of StartSpan, StartSpanWithRemoteParent, FromContext or NewContext reaches exactly that tracer once with the arguments given and its answer is returned, and each method of a *Span made with NewSpan reaches that span once with its arguments and answer (methods that only add data reach it only if it says it records). A nil *Span ignores every call, has the zero SpanContext and does not record. "
 "ochttp and ocgrpc make exactly one span per traced request with the installed tracer, hand it to the request through the context that tracer returned, and end it; nothing reaches the built-in exporters.",
 ["programs", "schedules", "configurations"], "all call sequences by concurrent goroutines, all answers of the tracer and its spans",
 "tests use one fixed replacement",
 ["trace/trace_api.go", "plugin/ochttp/client.go", "plugin/ochttp/trace.go", "plugin/ochttp/server.go", "plugin/ocgrpc/trace_common.go"], [("Tracer, SpanInterface, Span", "trace/trace_api.go")], ["calls arriving at the installed tracer and its spans"])

# ---------------------------------------------------------------- predefined views
prop("C36", "The predefined HTTP and gRPC views show what happened",
 "While registered, the predefined views of ochttp and ocgrpc (client and server) show, per combination of their tag keys, the number of requests begun or completed and the distributions (count, mean, bucket counts under the documented bounds) of the bytes, messages and latencies of exactly the requests that happened since, each view of the measure, tags and aggregation it is documented with; a view that is not registered at the time counts nothing. "
 "A request with a method, path, host or route that cannot be a tag value still counts under its other tags.",
 ["inputs", "programs", "configurations"], "all sets of registered views and all requests (sizes, durations, statuses, methods, the caller's own tags)",
 "tests read two or three of the views after one or two requests",
 ["plugin/ochttp/stats.go", "plugin/ochttp/client_stats.go", "plugin/ochttp/server.go", "plugin/ocgrpc/client_metrics.go", "plugin/ocgrpc/server_metrics.go", "plugin/ocgrpc/stats_common.go"],
 [("DefaultServerViews, Client*View", "plugin/ochttp/stats.go"), ("DefaultClientViews, DefaultServerViews", "plugin/ocgrpc/client_metrics.go")], ["rows of the predefined views"])

# ---------------------------------------------------------------- TraceZ details
prop("C37", "TraceZ tells each listed span's story",
 "For each span it lists, the TraceZ page (text and HTML) shows the span's start, its trace and span ID and, if it has one, its parent's span ID (the trace ID coloured by whether it is sampled), its duration (none while it runs), then, if set, its status with the code's name, then, if any, its attributes sorted by key, and then its retained annotations and message events, each once, in the order of their times, each with its time (its date only where that changes), the time since the line before it, and its text with its attributes, or its sizes, cut at 1024 bytes. "
 "Nothing recorded in one span appears in another's story, markup in recorded text is shown as text, looking changes nothing, and the number of spans stated is the number listed.",
 ["inputs", "programs"], "all histories of spans, times between their events, texts, attributes, statuses and limits",
 "the existing test renders fixed template data",
 ["zpages/tracez.go", "zpages/templates.go", "trace/spanstore.go"], [("traceRows, traceDataFromSpans, writeTextTraces", "zpages/tracez.go"), ("traceIDFormatter", "zpages/templates.go")], ["the pages of WriteTextTracezSpans, WriteHTMLTracezSpans, /tracez"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
