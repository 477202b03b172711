"""The registry of checks: for each property, the jobs that decide it."""
import threading
from vf import CheckError

TRACE_PKGS = ("trace", "internal", "trace/tracestate", "trace/propagation")


def parallel(c, fns):
    errs = []

    def w(f):
        try:
            f()
        except CheckError as e:
            errs.append(str(e))
        except Exception:
            import traceback
            errs.append(traceback.format_exc())
    ts = [threading.Thread(target=w, args=(f,)) for f in fns]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise CheckError("\n".join(errs))


def run(c):
    return globals()[c.prop](c)


def scale(c, q, t):
    return t if c.tier == "thorough" else q


def C03(c):
    parallel(c, [
        lambda: c.model_check("SpanExport_MC.tla", scale(c, "SpanExport_MC.cfg", "SpanExport_MC_big.cfg"), workers=scale(c, 2, 4)),
        lambda: c.trace_job("tracedrv", "TestExport", "SpanExport_Trace.tla", "SpanExport_Trace.cfg",
                            flavours=("plain", "instr", "race"), n=scale(c, 500, 5000), n_instr=scale(c, 2000, 15000), n_race=scale(c, 300, 3000), shards=scale(c, 3, 8), instr=TRACE_PKGS),
        lambda: c.trace_job("tracedrv", "TestExport", "SpanExport_Trace.tla", "SpanExport_Trace.cfg",
                            n=scale(c, 300, 2000), shards=1, mode="seq", name="seq"),
    ])
    return ["exporter callbacks run on the goroutine that calls End (observed order of events is real-time order)"]


TECH = {"*": "TLA+ specification model-checked with TLC; TLC trace validation of recorded real-code executions"}
NOTE = {"*": "The TLA+ specification is checked exhaustively with TLC within small constants; recorded executions of the real code "
             "(random programs, seeded statement-level interleavings, race-detector stress) are validated against it event by event. "
             "Assurance covers the executions explored; trusts TLC, the driver's event order and the Go toolchain."}


def _start(c, with_gen=True):
    j = [
        lambda: c.model_check("SpanStart_MC.tla", scale(c, "SpanStart_MC.cfg", "SpanStart_MC_big.cfg"), workers=scale(c, 2, 4), timeout=800),
        lambda: c.trace_job("tracedrv", "TestStart", "SpanStart_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 300, 3000), n_instr=scale(c, 800, 6000),
                            n_race=scale(c, 150, 1500), shards=scale(c, 3, 8), instr=TRACE_PKGS, dedupe=False),
    ]
    if with_gen:
        j.append(lambda: c.trace_job("tracedrv", "TestStart", "SpanStart_Trace.tla", flavours=("plain", "instr"), n=scale(c, 300, 3000),
                                     shards=scale(c, 2, 4), mode="gen", name="gen", instr=TRACE_PKGS, dedupe=False))
    return j


def C01(c):
    parallel(c, _start(c, False) + [
        lambda: c.trace_job("tracedrv", "TestStart", "SpanStart_Trace.tla", flavours=("plain", "race"), n=scale(c, 8, 60), shards=scale(c, 1, 4),
                            mode="many", name="many", dedupe=False)])


def C02(c):
    parallel(c, _start(c) + [
        lambda: c.trace_job("tracedrv", "TestProb", "SpanStart_Trace.tla", n=scale(c, 60, 600), shards=scale(c, 1, 4))])


def C05(c):
    parallel(c, _start(c))


def C04(c):
    parallel(c, [
        lambda: c.model_check("SpanContent_MC.tla", scale(c, "SpanContent_MC.cfg", "SpanContent_MC_big.cfg"), workers=scale(c, 2, 4), timeout=800),
        lambda: c.trace_job("tracedrv", "TestContent", "SpanContent_Trace.tla", "SpanContent_Trace.cfg", flavours=("plain", "instr", "race"),
                            n=scale(c, 300, 3000), n_instr=scale(c, 1500, 12000), n_race=scale(c, 150, 1500), shards=scale(c, 3, 8), instr=TRACE_PKGS),
        lambda: c.trace_job("tracedrv", "TestContent", "SpanContent_Trace.tla", "SpanContent_Trace.cfg",
                            n=scale(c, 300, 3000), shards=scale(c, 2, 4), mode="seq", name="seq"),
    ])


def C06(c):
    parallel(c, [
        lambda: c.model_check("SpanStore_MC.tla", scale(c, "SpanStore_MC.cfg", "SpanStore_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("tracedrv", "TestStore", "SpanStore_Trace.tla", "SpanStore_Trace.cfg", flavours=("plain", "instr", "race"),
                            n=scale(c, 200, 3000), n_instr=scale(c, 1200, 8000), n_race=scale(c, 150, 1500), shards=scale(c, 3, 8), chunk=120, instr=TRACE_PKGS),
        lambda: c.trace_job("tracedrv", "TestStore", "SpanStore_Trace.tla", "SpanStore_Trace.cfg",
                            n=scale(c, 300, 3000), shards=scale(c, 2, 4), mode="seq", name="seq"),
    ])


ZP = TRACE_PKGS + ("zpages",)


def C07(c):
    parallel(c, [
        lambda: c.model_check("SpanStore_MC.tla", scale(c, "SpanStore_MC.cfg", "SpanStore_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("zpagesdrv", "TestTracez", "TraceZ_Trace.tla", "TraceZ_Trace.cfg", flavours=("plain", "instr", "race"),
                            n=scale(c, 60, 800), n_instr=scale(c, 300, 2500), n_race=scale(c, 40, 400), shards=scale(c, 3, 8), chunk=10, instr=ZP),
        lambda: c.trace_job("zpagesdrv", "TestTracez", "TraceZ_Trace.tla", "TraceZ_Trace.cfg",
                            n=scale(c, 120, 1500), shards=scale(c, 2, 6), mode="seq", name="seq", chunk=10),
    ])


def C08(c):
    parallel(c, [
        lambda: c.model_check("TagMap_MC.tla", scale(c, "TagMap_MC.cfg", "TagMap_MC_big.cfg"), workers=scale(c, 2, 4), timeout=850),
        lambda: c.trace_job("tagdrv", "TestTag", "TagMap_Trace.tla", "TagMap_Trace.cfg", flavours=("plain", "instr", "race"),
                            n=scale(c, 400, 5000), n_instr=scale(c, 400, 4000), n_race=scale(c, 100, 1000), shards=scale(c, 2, 6), instr=("tag",)),
        lambda: c.trace_job("tagdrv", "TestTag", "TagMap_Trace.tla", "TagMap_Trace.cfg",
                            n=scale(c, 600, 6000), shards=scale(c, 2, 6), mode="seq", name="seq"),
    ])


def C09(c):
    parallel(c, [
        lambda: c.model_check("TagMap_MC.tla", scale(c, "TagMap_MC.cfg", "TagMap_MC_big.cfg"), workers=scale(c, 2, 4), timeout=850),
        lambda: c.trace_job("tagdrv", "TestCodec", "TagMap_Trace.tla", "TagMap_Trace.cfg",
                            n=scale(c, 400, 8000), shards=scale(c, 4, 8)),
        lambda: c.trace_job("tagdrv", "TestEnum", "TagMap_Trace.tla", "TagMap_Trace.cfg", dedupe=False,
                            n=scale(c, 80, 470), shards=scale(c, 3, 5)),
        lambda: c.trace_job("tagdrv", "TestTag", "TagMap_Trace.tla", "TagMap_Trace.cfg",
                            n=scale(c, 300, 3000), shards=scale(c, 2, 4), mode="seq", name="seq"),
    ])
VIEW_PKGS = ("stats", "stats/view", "stats/internal", "internal/tagencoding", "metric/metricproducer")


def _view(c, mode, mc="View_MC.cfg"):
    big = "View_MC_big.cfg" if mc == "View_MC.cfg" else mc
    parallel(c, [
        lambda: c.model_check("View_MC.tla", scale(c, mc, big), workers=scale(c, 2, 6), timeout=850, xmx="6g"),
        lambda: c.trace_job("viewdrv", "TestView", "View_Trace.tla", "View_Trace.cfg", flavours=("plain", "instr", "race"),
                            n=scale(c, 150, 2000), n_instr=scale(c, 350, 3500), n_race=scale(c, 100, 1000), shards=scale(c, 2, 6), mode=mode, instr=VIEW_PKGS),
        lambda: c.trace_job("viewdrv", "TestView", "View_Trace.tla", "View_Trace.cfg", n=scale(c, 400, 4000), shards=scale(c, 2, 6),
                            mode=mode + "-seq", name="seq"),
    ])
    return ["time is virtual (testing/synctest); values are multiples of one half of small magnitude, compared exactly after rounding",
            "the default meter is replaced by a fresh one per behaviour (in-package overlay)"]


def _flood(c):
    return [lambda: c.model_check("ViewQueue_MC.tla", scale(c, "ViewQueue_MC.cfg", "ViewQueue_MC_big.cfg"), workers=2, timeout=850),
            lambda: c.trace_job("viewdrv", "TestFlood", "ViewFlood_Trace.tla", flavours=("plain", "race"), n=scale(c, 150, 1500), n_race=scale(c, 40, 300),
                                shards=scale(c, 1, 3), name="flood")]


def C10(c):
    parallel(c, [lambda: _view(c, "c10")] + _flood(c))


def C11(c):
    return _view(c, "c11")


def C12(c):
    return _view(c, "c12")


def C13(c):
    return _view(c, "c13")


def C14(c):
    return _view(c, "c14")


def C15(c):
    parallel(c, [lambda: c.model_check("View_MC.tla", "View_MC_two.cfg", workers=2, timeout=850),
                 lambda: _view(c, "c15", "View_MC_live.cfg")] + _flood(c))
    return []


METRIC_PKGS = ("metric", "internal/tagencoding")


def _metric(c, mode):
    parallel(c, [
        lambda: c.model_check("Metric_MC.tla", scale(c, "Metric_MC.cfg", "Metric_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="6g"),
        lambda: c.trace_job("metricdrv", "TestMetric", "Metric_Trace.tla", flavours=("plain", "instr", "race"),
                            n=scale(c, 600, 6000), n_instr=scale(c, 2000, 15000), n_race=scale(c, 400, 4000), shards=scale(c, 3, 8), mode=mode, instr=METRIC_PKGS),
        lambda: c.trace_job("metricdrv", "TestMetric", "Metric_Trace.tla", n=scale(c, 1000, 10000), shards=scale(c, 2, 6),
                            mode=mode + "-seq", name="seq"),
    ])
    return ["values are small multiples of a power of two chosen per behaviour; metrics are added by one goroutine at a time (as documented)"]


def C16(c):
    return _metric(c, "c16")


def C17(c):
    return _metric(c, "c17")




READER_PKGS = ("metric/metricexport", "metric/metricproducer")


def C18(c):
    parallel(c, [
        lambda: c.model_check("Reader_MC.tla", scale(c, "Reader_MC.cfg", "Reader_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="6g"),
        lambda: c.model_check("Reader_MC.tla", "Reader_MC_live.cfg", workers=2, timeout=850),
        lambda: c.trace_job("readerdrv", "TestReader", "Reader_Trace.tla", flavours=("plain", "instr", "race"),
                            n=scale(c, 600, 6000), n_instr=scale(c, 1500, 12000), n_race=scale(c, 400, 4000), shards=scale(c, 3, 8), instr=READER_PKGS),
        lambda: c.trace_job("readerdrv", "TestReader", "Reader_Trace.tla", n=scale(c, 1000, 10000), shards=scale(c, 2, 6), mode="seq", name="seq"),
    ])
    return ["time is virtual (testing/synctest); exporters that take time are explored in sequential behaviours only"]


def C19(c):
    parallel(c, [
        lambda: c.model_check("RunMetrics_MC.tla", scale(c, "RunMetrics_MC.cfg", "RunMetrics_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="8g"),
        lambda: c.trace_job("runmetricsdrv", "TestRun", "RunMetrics_Trace.tla", flavours=("plain", "instr", "race"),
                            n=scale(c, 200, 2000), n_instr=scale(c, 300, 3000), n_race=scale(c, 80, 800), shards=scale(c, 2, 4), instr=("plugin/runmetrics", "metric", "metric/metricproducer")),
        lambda: c.trace_job("runmetricsdrv", "TestRun", "RunMetrics_Trace.tla", n=scale(c, 250, 2500), shards=scale(c, 2, 4), mode="seq", name="seq"),
    ])
    return ["statistics that may move both ways are compared when they are at rest around the read; the manager is looked at between calls"]


PROP_PKGS = ("trace/propagation", "trace/tracestate", "plugin/ochttp/propagation/b3", "plugin/ochttp/propagation/tracecontext", "exporter/stackdriver/propagation")


def http_server(c):
    parallel(c, [
        lambda: c.model_check("HttpServer_MC.tla", scale(c, "HttpServer_MC.cfg", "HttpServer_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="8g"),
        lambda: c.trace_job("httpdrv", "TestServer", "HttpServer_Trace.tla", flavours=("plain", "race"), n=scale(c, 1000, 12000), n_race=scale(c, 200, 2000),
                            shards=scale(c, 3, 8), instr=("plugin/ochttp",)),
        lambda: c.trace_job("httpdrv", "TestServer", "HttpServer_Trace.tla", flavours=("plain", "race"), n=scale(c, 200, 1500), n_race=scale(c, 80, 500), shards=2, mode="live", name="live"),
    ])


def C20(c):
    http_server(c)
    return ["the status of a request whose handler panics or hijacks before a header is sent is not compared"]


def C21(c):
    http_server(c)
    return ["the status of a request whose handler panics or hijacks before a header is sent is not compared", "hosts, paths, methods and routes are valid tag values"]


def http_client(c):
    parallel(c, [
        lambda: c.model_check("HttpClient_MC.tla", scale(c, "HttpClient_MC.cfg", "HttpClient_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="8g"),
        lambda: c.trace_job("httpdrv", "TestClient", "HttpClient_Trace.tla", flavours=("plain", "race"), n=scale(c, 1000, 12000), n_race=scale(c, 200, 2000),
                            shards=scale(c, 3, 8), instr=("plugin/ochttp",)),
        lambda: c.trace_job("httpdrv", "TestClient", "HttpClient_Trace.tla", flavours=("plain", "race"), n=scale(c, 200, 1500), n_race=scale(c, 80, 500), shards=2, mode="live", name="live"),
    ])


def C22(c):
    http_client(c)
    return ["Read and Close of one response body are not called concurrently"]


def C23(c):
    http_client(c)
    return ["hosts, paths and methods are valid tag values", "Read and Close of one response body are not called concurrently"]


def grpc(c):
    jobs = [
        lambda: c.model_check("Grpc_MC.tla", scale(c, "Grpc_MC.cfg", "Grpc_MC_big.cfg"), workers=scale(c, 2, 5), timeout=850, xmx="8g"),
        lambda: c.trace_job("grpcdrv", "TestRPC", "Grpc_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 1000, 15000), n_instr=scale(c, 700, 8000), n_race=scale(c, 200, 2000),
                            shards=scale(c, 3, 8), instr=("plugin/ocgrpc",)),
        lambda: c.trace_job("grpcdrv", "TestLive", "Grpc_Trace.tla", flavours=("plain", "race"), n=scale(c, 300, 3000), n_race=scale(c, 100, 1000), shards=2, name="live"),
    ]
    if c.tier != "quick":
        jobs.append(lambda: c.model_check("Grpc_MC.tla", "Grpc_MC_chain.cfg", workers=4, timeout=850, xmx="8g"))
    parallel(c, jobs)


def C24(c):
    grpc(c)
    return ["an RPC has one End and no message is under way when it comes", "the status of an error that carries none is only checked not to be OK"]


def C25(c):
    grpc(c)
    return ["an RPC has one End and no message is under way when it comes", "errors carry a status; method names are valid tag values"]


def C26(c):
    parallel(c, [
        lambda: c.model_check("Propagation_MC.tla", scale(c, "Propagation_MC.cfg", "Propagation_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="6g"),
        lambda: c.trace_job("propdrv", "TestRound", "Propagation_Trace.tla", n=scale(c, 900, 10000), shards=scale(c, 4, 8)),
        lambda: c.trace_job("propdrv", "TestBad", "Propagation_Trace.tla", n=scale(c, 300, 3000), shards=scale(c, 1, 4)),
    ])


def C27(c):
    parallel(c, [
        lambda: c.model_check("Propagation_MC.tla", scale(c, "Propagation_MC.cfg", "Propagation_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="6g"),
        lambda: c.trace_job("propdrv", "TestBad", "Propagation_Trace.tla", n=scale(c, 1200, 12000), shards=scale(c, 4, 8)),
        lambda: c.trace_job("propdrv", "TestEnum", "Propagation_Trace.tla", n=scale(c, 800, 850), shards=scale(c, 1, 2), dedupe=False),
    ])


def C28(c):
    parallel(c, [
        lambda: c.model_check("TraceState_MC.tla", scale(c, "TraceState_MC.cfg", "TraceState_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("propdrv", "TestState", "TraceState_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 400, 4000), n_instr=scale(c, 500, 4000),
                            n_race=scale(c, 200, 2000), shards=scale(c, 3, 8), instr=("trace/tracestate",)),
        lambda: c.trace_job("propdrv", "TestState", "TraceState_Trace.tla", n=scale(c, 800, 8000), shards=scale(c, 2, 6), mode="seq", name="seq"),
    ])


def C29(c):
    parallel(c, [
        lambda: c.model_check("Resource_MC.tla", scale(c, "Resource_MC.cfg", "Resource_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850, xmx="8g"),
        lambda: c.trace_job("resdrv", "TestRes", "Resource_Trace.tla", flavours=("plain", "race"), n=scale(c, 700, 8000), n_race=scale(c, 150, 1500), shards=scale(c, 3, 8), instr=("resource",)),
        lambda: c.trace_job("resdrv", "TestEnum", "Resource_Trace.tla", n=scale(c, 40, 200), shards=scale(c, 1, 2), name="enum"),
    ])
    return ["label texts whose keys hold spaces, quotes, commas or equal signs, that repeat a key or escape characters beyond ASCII may be accepted or refused"]


def C30(c):
    parallel(c, [
        lambda: c.model_check("RpcZ_MC.tla", scale(c, "RpcZ_MC.cfg", "RpcZ_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("rpczdrv", "TestRpcz", "RpcZ_Trace.tla", n=scale(c, 1500, 15000), shards=scale(c, 2, 6)),
        lambda: c.trace_job("rpczdrv", "TestRpcz", "RpcZ_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 100, 600), n_instr=scale(c, 80, 500), n_race=scale(c, 60, 400),
                            shards=scale(c, 2, 4), mode="live", name="live", instr=("zpages",)),
    ])
    return ["the units in the page's headings and the minute and hour columns (which the package documents as not implemented) are not looked at"]


def C31(c):
    parallel(c, [
        lambda: c.model_check("Measure_MC.tla", scale(c, "Measure_MC.cfg", "Measure_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("measdrv", "TestMeas", "Measure_Trace.tla", n=scale(c, 600, 6000), shards=scale(c, 2, 6), mode="seq", name="seq"),
        lambda: c.trace_job("measdrv", "TestMeas", "Measure_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 400, 4000), n_instr=scale(c, 300, 3000),
                            n_race=scale(c, 200, 2000), shards=scale(c, 2, 4), instr=("stats", "stats/view")),
    ])
    return []

def C32(c):
    parallel(c, [
        lambda: c.model_check("TestExporter_MC.tla", scale(c, "TestExporter_MC.cfg", "TestExporter_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("tmetdrv", "TestTmet", "TestExporter_Trace.tla", n=scale(c, 2500, 25000), shards=scale(c, 2, 6)),
        lambda: c.trace_job("tmetdrv", "TestTmetRunTogether", "TestExporter_Trace.tla", n=1, shards=1, name="together"),
    ])
    return []


def C33(c):
    parallel(c, [
        lambda: c.model_check("HttpChain_MC.tla", scale(c, "HttpChain_MC.cfg", "HttpChain_MC_big.cfg"), workers=scale(c, 3, 6), timeout=850),
        lambda: c.trace_job("httpdrv", "TestChain", "HttpChain_Trace.tla", flavours=("plain", "race"), n=scale(c, 900, 9000), n_race=scale(c, 200, 2000),
                            shards=scale(c, 2, 4), instr=("plugin/ochttp", "trace")),
        lambda: c.trace_job("httpdrv", "TestChain", "HttpChain_Trace.tla", flavours=("plain", "instr"), n=scale(c, 600, 6000), n_instr=scale(c, 300, 3000),
                            shards=scale(c, 2, 4), mode="loop", name="loop", instr=("plugin/ochttp", "trace")),
    ])
    return []

def C34(c):
    parallel(c, [
        lambda: c.model_check("HttpHooks_MC.tla", scale(c, "HttpHooks_MC.cfg", "HttpHooks_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("httpdrv", "TestHooks", "HttpHooks_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 900, 9000), n_instr=scale(c, 400, 4000), n_race=scale(c, 150, 1500),
                            shards=scale(c, 2, 4), instr=("plugin/ochttp", "trace")),
        lambda: c.trace_job("httpdrv", "TestHooks", "HttpHooks_Trace.tla", flavours=("plain", "race"), n=scale(c, 500, 5000), n_race=scale(c, 150, 1500),
                            shards=scale(c, 2, 4), mode="live", name="live", instr=("plugin/ochttp", "trace")),
    ])
    return []


def C35(c):
    parallel(c, [
        lambda: c.model_check("Tracer_MC.tla", scale(c, "Tracer_MC.cfg", "Tracer_MC_big.cfg"), workers=scale(c, 3, 6), timeout=850),
        lambda: c.trace_job("tracerdrv", "TestTracer", "Tracer_Trace.tla", flavours=("plain", "instr", "race"), n=scale(c, 1000, 10000), n_instr=scale(c, 300, 3000),
                            n_race=scale(c, 200, 2000), shards=scale(c, 2, 4), instr=("trace", "plugin/ochttp", "plugin/ocgrpc")),
    ])
    return []


def C36(c):
    parallel(c, [
        lambda: c.model_check("PredefViews_MC.tla", scale(c, "PredefViews_MC.cfg", "PredefViews_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("predefdrv", "TestPredef", "PredefViews_Trace.tla", n=scale(c, 1500, 15000), shards=scale(c, 3, 8)),
        lambda: c.trace_job("predefdrv", "TestPredef", "PredefViews_Trace.tla", flavours=("plain", "race"), n=scale(c, 200, 2000), n_race=scale(c, 200, 2000),
                            shards=scale(c, 1, 4), name="race", instr=("plugin/ochttp", "plugin/ocgrpc")),
    ])
    return []


def C37(c):
    parallel(c, [
        lambda: c.model_check("SpanStory_MC.tla", scale(c, "SpanStory_MC.cfg", "SpanStory_MC_big.cfg"), workers=scale(c, 2, 6), timeout=850),
        lambda: c.trace_job("zpagesdrv", "TestStory", "SpanStory_Trace.tla", n=scale(c, 1200, 12000), shards=scale(c, 4, 8), chunk=scale(c, 50, 50)),
    ])
    return ["texts contain no line breaks or tabs; a text near the 1024-byte limit has no attributes"]
