//go:build go1.25

// Package tracerdrv replaces the tracer.
package tracerdrv

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type M = vlib.M

type thKey struct{}
type spanKey int

// world is one behaviour.
type world struct {
	tr   *vlib.Trace
	mu   sync.Mutex
	n    int // spans made
	exps int
	only int // the thread, if there is one only
}

// thread is who calls with ctx
func (w *world) thread(ctx context.Context) int {
	if w.only > 0 || ctx == nil {
		return w.only
	}
	th, _ := ctx.Value(thKey{}).(int)
	return th
}

func (w *world) ExportSpan(*trace.SpanData) { w.mu.Lock(); w.exps++; w.mu.Unlock() }

// fspan is a span of the driver, used by one thread.
type fspan struct {
	w   *world
	id  int
	th  int
	rec bool
	r   *rand.Rand
}

func (w *world) span(th int, r *rand.Rand) *fspan {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	return &fspan{w: w, id: w.n, th: th, rec: r.Intn(3) > 0, r: r}
}

func sid(s *trace.Span) int {
	if s == nil {
		return 0
	}
	if f, ok := s.Internal().(*fspan); ok {
		return f.id
	}
	return -1
}

func (s *fspan) at(f, a, r string) {
	s.w.tr.Call("arrive", M{"th2": s.th, "t": 0, "f": f, "s": s.id, "a": a, "r": r, "made": 0, "rec": s.rec})
}

func (s *fspan) IsRecordingEvents() bool {
	s.at("IsRecordingEvents", "", fmt.Sprint(s.rec))
	return s.rec
}
func (s *fspan) End() { s.at("End", "", "") }
func (s *fspan) SpanContext() trace.SpanContext {
	sc := trace.SpanContext{}
	s.r.Read(sc.TraceID[:])
	s.r.Read(sc.SpanID[:])
	s.at("SpanContext", "", scs(sc))
	return sc
}
func (s *fspan) SetName(n string)                       { s.at("SetName", n, "") }
func (s *fspan) SetStatus(x trace.Status)               { s.at("SetStatus", fmt.Sprint(x), "") }
func (s *fspan) AddAttributes(a ...trace.Attribute)     { s.at("AddAttributes", as(a), "") }
func (s *fspan) Annotate(a []trace.Attribute, m string) { s.at("Annotate", as(a)+m, "") }
func (s *fspan) Annotatef(a []trace.Attribute, f string, x ...interface{}) {
	s.at("Annotatef", as(a)+f+fmt.Sprintf(" %#v", x), "")
}
func (s *fspan) AddMessageSendEvent(a, b, c int64) {
	s.at("AddMessageSendEvent", fmt.Sprint(a, b, c), "")
}
func (s *fspan) AddMessageReceiveEvent(a, b, c int64) {
	s.at("AddMessageReceiveEvent", fmt.Sprint(a, b, c), "")
}
func (s *fspan) AddLink(l trace.Link) { s.at("AddLink", ls(l), "") }
func (s *fspan) String() string {
	x := fmt.Sprint("span", s.id, s.r.Intn(100))
	s.at("String", "", x)
	return x
}

func as(a []trace.Attribute) string {
	if a == nil {
		return "nil;"
	}
	return fmt.Sprintf("%v;", a)
}
func ls(l trace.Link) string {
	return fmt.Sprintf("%x %x %v %v", l.TraceID, l.SpanID, l.Type, l.Attributes)
}
func scs(sc trace.SpanContext) string {
	if sc == (trace.SpanContext{}) {
		return "zero"
	}
	return fmt.Sprintf("%x %x %d", sc.TraceID, sc.SpanID, sc.TraceOptions)
}

// ftracer keeps the spans in contexts under a key of its own.
type ftracer struct {
	w *world
	t int
}

func opts(o []trace.StartOption) string {
	so := trace.StartOptions{}
	for _, f := range o {
		f(&so)
	}
	smp := "none"
	if so.Sampler != nil {
		smp = fmt.Sprint(so.Sampler(trace.SamplingParameters{}).Sample)
	}
	return fmt.Sprint(smp, so.SpanKind)
}

func cid(ctx context.Context) string {
	if ctx == nil {
		return "nil"
	}
	return fmt.Sprint(ctx.Value(ctxKey{}))
}

type ctxKey struct{}

func (t ftracer) at(ctx context.Context, f string, s int, a, r string, made int, rec bool) {
	th := t.w.thread(ctx)
	t.w.tr.Call("arrive", M{"th2": th, "t": t.t, "f": f, "s": s, "a": a, "r": r, "made": made, "rec": rec})
}

func (t ftracer) start(ctx context.Context, f, a string) (context.Context, *trace.Span) {
	th := t.w.thread(ctx)
	s := t.w.span(th, rand.New(rand.NewSource(1)))
	s.r = rand.New(rand.NewSource(int64(s.id)))
	s.rec = s.id%3 != 0
	t.at(ctx, f, 0, a, fmt.Sprint(s.id, " c", s.id), s.id, s.rec)
	sp := trace.NewSpan(s)
	return context.WithValue(context.WithValue(ctx, ctxKey{}, fmt.Sprint("c", s.id)), spanKey(t.t), sp), sp
}

func (t ftracer) StartSpan(ctx context.Context, name string, o ...trace.StartOption) (context.Context, *trace.Span) {
	return t.start(ctx, "StartSpan", cid(ctx)+" "+name+" "+opts(o))
}
func (t ftracer) StartSpanWithRemoteParent(ctx context.Context, name string, p trace.SpanContext, o ...trace.StartOption) (context.Context, *trace.Span) {
	return t.start(ctx, "StartSpanWithRemoteParent", cid(ctx)+" "+name+" "+scs(p)+" "+opts(o))
}
func (t ftracer) FromContext(ctx context.Context) *trace.Span {
	s, _ := ctx.Value(spanKey(t.t)).(*trace.Span)
	t.at(ctx, "FromContext", 0, cid(ctx), fmt.Sprint(sid(s)), 0, false)
	return s
}
func (t ftracer) NewContext(ctx context.Context, s *trace.Span) context.Context {
	t.at(ctx, "NewContext", 0, fmt.Sprint(cid(ctx), " ", sid(s)), fmt.Sprint("n", sid(s)), 0, false)
	return context.WithValue(context.WithValue(ctx, ctxKey{}, fmt.Sprint("n", sid(s))), spanKey(t.t), s)
}

// prog is one thread.
type prog struct {
	w    *world
	th   int
	r    *rand.Rand
	ctxs []context.Context
	sp   []*trace.Span
}

func (p *prog) do(f string, s int, a string, g func() string) {
	p.w.tr.Inv(p.th, "do", M{"f": f, "s": s, "a": a})
	p.w.tr.Ret(p.th, "do", M{"f": f, "r": g()})
}

func (p *prog) opts() []trace.StartOption {
	var o []trace.StartOption
	if p.r.Intn(2) == 0 {
		o = append(o, trace.WithSampler(vlib.Pick(p.r, []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()})))
	}
	if p.r.Intn(2) == 0 {
		o = append(o, trace.WithSpanKind(p.r.Intn(3)))
	}
	return o
}

func (p *prog) attrs() []trace.Attribute {
	var a []trace.Attribute
	for i := p.r.Intn(3); i > 0; i-- {
		a = append(a, vlib.Pick(p.r, []trace.Attribute{trace.StringAttribute("a", "x"), trace.BoolAttribute("b", true), trace.Int64Attribute("c", 3), trace.Float64Attribute("d", 0.5)}))
	}
	return a
}

func (p *prog) rsc() trace.SpanContext {
	sc := trace.SpanContext{TraceOptions: trace.TraceOptions(p.r.Intn(3))}
	if p.r.Intn(3) > 0 {
		p.r.Read(sc.TraceID[:])
		p.r.Read(sc.SpanID[:])
	}
	return sc
}

func (p *prog) step() {
	r := p.r
	ctx := vlib.Pick(r, p.ctxs)
	s := vlib.Pick(r, p.sp)
	id := sid(s)
	name := vlib.Pick(r, []string{"", "n", "x/y"})
	switch r.Intn(20) {
	case 0, 1, 2:
		o := p.opts()
		p.do("StartSpan", 0, cid(ctx)+" "+name+" "+opts(o), func() string {
			c, sp := trace.StartSpan(ctx, name, o...)
			p.sp, p.ctxs = append(p.sp, sp), append(p.ctxs, c)
			return fmt.Sprint(sid(sp), " ", cid(c))
		})
		p.made()
	case 3:
		o, sc := p.opts(), p.rsc()
		p.do("StartSpanWithRemoteParent", 0, cid(ctx)+" "+name+" "+scs(sc)+" "+opts(o), func() string {
			c, sp := trace.StartSpanWithRemoteParent(ctx, name, sc, o...)
			p.sp, p.ctxs = append(p.sp, sp), append(p.ctxs, c)
			return fmt.Sprint(sid(sp), " ", cid(c))
		})
		p.made()
	case 4:
		p.do("FromContext", 0, cid(ctx), func() string { return fmt.Sprint(sid(trace.FromContext(ctx))) })
	case 5:
		p.do("NewContext", 0, fmt.Sprint(cid(ctx), " ", id), func() string {
			c := trace.NewContext(ctx, s)
			p.ctxs = append(p.ctxs, c)
			return cid(c)
		})
	case 6:
		f := p.w.span(p.th, r)
		f.r = rand.New(rand.NewSource(r.Int63()))
		p.sp = append(p.sp, trace.NewSpan(f))
		p.made()
	case 7:
		p.do("IsRecordingEvents", id, "", func() string { return fmt.Sprint(s.IsRecordingEvents()) })
	case 8:
		p.do("End", id, "", func() string { s.End(); return "" })
	case 9:
		p.do("SpanContext", id, "", func() string { return scs(s.SpanContext()) })
	case 10:
		p.do("String", id, "", func() string { return s.String() })
	case 11:
		p.do("SetName", id, name, func() string { s.SetName(name); return "" })
	case 12:
		st := trace.Status{Code: int32(r.Intn(17)), Message: name}
		p.do("SetStatus", id, fmt.Sprint(st), func() string { s.SetStatus(st); return "" })
	case 13:
		a := p.attrs()
		p.do("AddAttributes", id, as(a), func() string { s.AddAttributes(a...); return "" })
	case 14:
		a := p.attrs()
		p.do("Annotate", id, as(a)+name, func() string { s.Annotate(a, name); return "" })
	case 15:
		a, x := p.attrs(), []interface{}{r.Intn(9), name}[:r.Intn(3)]
		p.do("Annotatef", id, as(a)+"%v"+fmt.Sprintf(" %#v", x), func() string { s.Annotatef(a, "%v", x...); return "" })
	case 16:
		a, b, c := int64(r.Intn(9)), int64(r.Intn(9)), int64(r.Intn(9))
		p.do("AddMessageSendEvent", id, fmt.Sprint(a, b, c), func() string { s.AddMessageSendEvent(a, b, c); return "" })
	case 17:
		a, b, c := int64(r.Intn(9)), int64(r.Intn(9)), int64(r.Intn(9))
		p.do("AddMessageReceiveEvent", id, fmt.Sprint(a, b, c), func() string { s.AddMessageReceiveEvent(a, b, c); return "" })
	case 18:
		sc := p.rsc()
		l := trace.Link{TraceID: sc.TraceID, SpanID: sc.SpanID, Type: trace.LinkType(r.Intn(3)), Attributes: map[string]interface{}{"k": name}}
		p.do("AddLink", id, ls(l), func() string { s.AddLink(l); return "" })
	default:
		p.plugin()
	}
}

// made tells of spans the spec does not know of yet.
func (p *prog) made() {
	s := p.sp[len(p.sp)-1]
	f := s.Internal().(*fspan)
	p.w.tr.Call("made", M{"s": f.id, "rec": f.rec, "th2": p.th})
}

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

// plugin lets a plugin handle one request.
func (p *prog) plugin() {
	r, w := p.r, p.w
	ctx := context.WithValue(p.ctxs[0], ctxKey{}, "p")
	k := vlib.Pick(r, []string{"serve", "send", "rpcserver", "rpcclient"})
	n, path := 1, "/p"
	if k[0] == 's' && r.Intn(6) == 0 {
		n, path = 0, "/healthz"
	}
	in := func(ctx context.Context) {
		w.tr.Call("in", M{"th2": p.th, "s": sid(trace.FromContext(ctx)), "c": cid(ctx)})
	}
	w.tr.Inv(p.th, "plug", M{"k": k, "n": n})
	switch k {
	case "serve":
		q := httptest.NewRequest("GET", "http://x"+path, nil).WithContext(ctx)
		if r.Intn(2) == 0 {
			q.Header.Set("X-B3-TraceId", "0123456789abcdef0123456789abcdef")
			q.Header.Set("X-B3-SpanId", "0123456789abcdef")
		}
		h := &ochttp.Handler{IsPublicEndpoint: r.Intn(2) == 0, Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { in(q.Context()) })}
		h.ServeHTTP(httptest.NewRecorder(), q)
	case "send":
		how := r.Intn(3)
		t := &ochttp.Transport{Base: rt(func(q *http.Request) (*http.Response, error) {
			in(q.Context())
			if how == 0 {
				return nil, io.ErrUnexpectedEOF
			}
			return &http.Response{StatusCode: 200, Status: "200", Body: io.NopCloser(strings.NewReader("x"))}, nil
		})}
		q, _ := http.NewRequestWithContext(ctx, "GET", "http://x"+path, nil)
		resp, err := t.RoundTrip(q)
		if err == nil {
			if how == 1 {
				io.ReadAll(resp.Body)
			}
			resp.Body.Close()
		}
	default:
		var h stats.Handler
		client := k == "rpcclient"
		if client {
			h = &ocgrpc.ClientHandler{}
		} else {
			h = &ocgrpc.ServerHandler{IsPublicEndpoint: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				sc := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}}
				ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("grpc-trace-bin", string(propagation.Binary(sc))))
			}
		}
		c := h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: "/s/m"})
		in(c)
		h.HandleRPC(c, &stats.Begin{Client: client})
		for i := r.Intn(3); i > 0; i-- {
			h.HandleRPC(c, &stats.InPayload{Client: client, Length: 3})
			h.HandleRPC(c, &stats.OutPayload{Client: client, Length: 3})
		}
		h.HandleRPC(c, &stats.End{Client: client, Error: vlib.Pick(r, []error{nil, status.Error(codes.NotFound, "x"), io.EOF})})
	}
	w.tr.Ret(p.th, "plug", M{})
}

func TestTracer(t *testing.T) {
	e := vlib.Open(t)
	old := trace.DefaultTracer
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := &world{tr: tr, n: 0}
		trace.RegisterExporter(w)
		defer trace.UnregisterExporter(w)
		defer func() { trace.DefaultTracer = old }()
		n := 1 + r.Intn(3)
		ps := make([]*prog, n+1)
		for th := 1; th <= n; th++ {
			ps[th] = &prog{w: w, th: th, r: rand.New(rand.NewSource(r.Int63())), sp: []*trace.Span{nil},
				ctxs: []context.Context{context.WithValue(context.WithValue(context.Background(), thKey{}, th), ctxKey{}, fmt.Sprint("b", th))}}
		}
		if n == 1 {
			w.only = 1
			ps[1].ctxs = append(ps[1].ctxs, context.Background(), context.TODO())
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			k := 1 + r.Intn(2)
			trace.DefaultTracer = ftracer{w, k}
			tr.Call("install", M{"t": k})
			cnt := 2 + r.Intn(8)
			vlib.Par(tr, n, func(th int) {
				for j := 0; j < cnt; j++ {
					ps[th].step()
				}
			})
		}
		w.mu.Lock()
		m := M{"n": w.exps}
		w.mu.Unlock()
		tr.Call("end", m)
	})
}
