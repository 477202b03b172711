//go:build go1.25

package httpdrv

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	tprop "go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

type holderKey struct{}
type extKey struct{}

// formats: nil is the default, b3
var chainFormats = []tprop.HTTPFormat{nil, &b3.HTTPFormat{}, &tracecontext.HTTPFormat{}, &propagation.HTTPFormat{}}
var formatNames = []string{"b3", "b3", "tc", "sd"}

// hop is one planned request.
type hop struct {
	q, svc, cli int // request, service, client (transport)
	health      bool
	post, abort bool
	detached    bool // sent with a context of its own
	proxy       bool // with the headers of the request being served
	local       bool // under a span begun for it
	par         bool // concurrently with the next ones
	lopt        int
	redir       *hop // answered with a redirect there
	kids        []*hop
	status      int
	ext         bool
	body        int
}

type service struct {
	h      *ochttp.Handler
	srv    *httptest.Server
	fmt    int
	opt    int
	public bool
	gs     bool
}

type client struct {
	t   *ochttp.Transport
	c   *http.Client
	fmt int
	opt int
	gs  bool
}

type hworld struct {
	world
	loop bool
	hops map[int]*hop
	svcs []*service
	clis []*client
	emu  sync.Mutex
	out  []M
	lno  int
}

func (w *hworld) x(sc trace.SpanContext) M {
	m := w.sc(sc)
	m["ts"] = w.ts(sc.Tracestate)
	if sc == (trace.SpanContext{}) {
		m["ts"] = 0
	}
	return m
}

func (w *hworld) ctxx(ctx context.Context) M {
	if s := trace.FromContext(ctx); s != nil {
		return w.x(s.SpanContext())
	}
	return w.x(trace.SpanContext{})
}

// ExportSpan keeps a span that ended.
func (w *hworld) ExportSpan(s *trace.SpanData) {
	e := w.x(s.SpanContext)
	e["p"] = 0
	if s.ParentSpanID != (trace.SpanID{}) {
		e["p"] = w.sids.ID(s.ParentSpanID)
	}
	ls := []M{}
	for _, l := range s.Links {
		ls = append(ls, M{"t": w.tids.ID(l.TraceID), "s": w.sids.ID(l.SpanID), "ty": int(l.Type)})
	}
	e["rem"], e["kind"], e["name"], e["links"] = s.HasRemoteParent, s.SpanKind, s.Name, ls
	w.emu.Lock()
	w.out = append(w.out, e)
	w.emu.Unlock()
}

func qOf(r *http.Request) int {
	n, _ := strconv.Atoi(r.URL.Query().Get("q"))
	return n
}

func holder(ctx context.Context) string {
	h, _ := ctx.Value(holderKey{}).(string)
	return h
}

func (w *hworld) path(h *hop) string {
	if h.health {
		return "/healthz"
	}
	return fmt.Sprintf("/v%d/q%d", h.svc, h.q)
}

func (w *hworld) url(h *hop) string {
	base := fmt.Sprintf("http://svc%d.test", h.svc)
	if !w.loop {
		base = w.svcs[h.svc].srv.URL
	}
	return fmt.Sprintf("%s%s?q=%d", base, w.path(h), h.q)
}

func (w *hworld) conf(h *hop, f int, m M) M {
	s := w.svcs[h.svc]
	m["q"], m["health"], m["shealth"], m["match"] = h.q, h.health, h.health, formatNames[f] == formatNames[s.fmt]
	m["fmt"], m["public"], m["abort"], m["name"] = formatNames[f], s.public, h.abort, w.path(h)
	m["sopt"] = s.opt
	if s.gs {
		m["sopt"] = h.q % 4
	}
	m["copt"] = 0
	return m
}

// outer sees each request before the transport does, redirected ones included.
type outer struct {
	w *hworld
	c *client
	t http.RoundTripper
}

func (o outer) RoundTrip(q *http.Request) (*http.Response, error) {
	w, h := o.w, o.w.hops[qOf(q)]
	m := w.conf(h, o.c.fmt, M{"by": holder(q.Context())})
	m["copt"] = o.c.opt
	if o.c.gs {
		m["copt"] = (h.q + 1) % 4
	}
	w.tr.Call("send", m)
	return o.done(h, q, o.t)
}

func (o outer) done(h *hop, q *http.Request, t http.RoundTripper) (*http.Response, error) {
	w := o.w
	resp, err := t.RoundTrip(q)
	of := 0
	if err == nil {
		of, _ = strconv.Atoi(resp.Header.Get("Zz-Of"))
	}
	w.tr.Call("reply", M{"q": h.q, "of": of, "err": err != nil})
	return resp, err
}

// extern is a client without the library.
type extern struct{ outer }

func (o extern) RoundTrip(q *http.Request) (*http.Response, error) {
	w, h := o.w, o.w.hops[qOf(q)]
	e := q.Context().Value(extKey{}).(M)
	w.tr.Call("ext", w.conf(h, e["fmt"].(int), M{"x": e["x"]}))
	return o.done(h, q, wireRT{w, true})
}

// wireRT is below the transport.
type wireRT struct {
	w   *hworld
	ext bool
}

func (b wireRT) RoundTrip(q *http.Request) (*http.Response, error) {
	w, h := b.w, b.w.hops[qOf(q)]
	if !b.ext {
		w.tr.Call("wire", M{"q": h.q, "h": fmt.Sprint("c", h.q), "def": w.def, "x": w.ctxx(q.Context())})
	}
	if !w.loop {
		return w.svcs[h.svc].srv.Client().Transport.RoundTrip(q)
	}
	rec := httptest.NewRecorder()
	in := httptest.NewRequest(q.Method, q.URL.String(), q.Body)
	in.Header, in.ContentLength = q.Header.Clone(), q.ContentLength
	pan := func() (pan bool) {
		defer func() { pan = recover() != nil }()
		w.svcs[h.svc].h.ServeHTTP(rec, in)
		return
	}()
	if pan {
		return nil, io.ErrUnexpectedEOF
	}
	return rec.Result(), nil
}

// serve is the handler of every service.
func (w *hworld) serve(rw http.ResponseWriter, q *http.Request) {
	h := w.hops[qOf(q)]
	me := fmt.Sprint("s", h.q)
	w.tr.Call("arrive", M{"q": h.q, "h": me, "def": w.def, "x": w.ctxx(q.Context())})
	ctx := context.WithValue(q.Context(), holderKey{}, me)
	w.calls(ctx, h.kids, q.Header)
	if h.abort {
		panic(http.ErrAbortHandler)
	}
	rw.Header().Set("Zz-Of", strconv.Itoa(h.q))
	if h.redir != nil {
		http.Redirect(rw, q, w.url(h.redir), h.status)
		return
	}
	if h.body > 0 {
		io.WriteString(rw, strings.Repeat("z", h.body))
	}
}

func (w *hworld) calls(ctx context.Context, hs []*hop, in http.Header) {
	var wg sync.WaitGroup
	for _, h := range hs {
		if h.par && !w.loop {
			wg.Add(1)
			go func() { defer wg.Done(); w.call(ctx, h, in) }()
		} else {
			w.call(ctx, h, in)
		}
	}
	wg.Wait()
}

func (w *hworld) call(ctx context.Context, h *hop, in http.Header) {
	if h.ext {
		w.external(h)
		return
	}
	if h.detached {
		ctx = context.Background()
	}
	var sp *trace.Span
	if h.local {
		by := holder(ctx)
		name := fmt.Sprint("l", h.q)
		ctx, sp = trace.StartSpan(ctx, name, trace.WithSampler(sampler(h.lopt)))
		w.tr.Call("local", M{"h": name, "by": by, "def": w.def, "opt": h.lopt, "name": name, "x": w.x(sp.SpanContext())})
		ctx = context.WithValue(ctx, holderKey{}, name)
		defer sp.End()
	}
	// headers of another format would reach the service beside those of the client
	if !h.proxy || formatNames[w.clis[h.cli].fmt] != formatNames[w.svcs[h.svc].fmt] || h.redir != nil {
		in = nil
	}
	w.do(ctx, w.clis[h.cli].c, h, in.Clone())
}

func (w *hworld) do(ctx context.Context, c *http.Client, h *hop, hdr http.Header) {
	var rd io.Reader
	method := "GET"
	if h.post {
		method, rd = "POST", strings.NewReader("body")
	}
	if h.abort { // not repeated by the transport
		method, rd = "POST", io.MultiReader(strings.NewReader("body"))
	}
	q, _ := http.NewRequestWithContext(ctx, method, w.url(h), rd)
	for k, v := range hdr {
		q.Header[k] = v
	}
	resp, err := c.Do(q)
	if err != nil {
		return
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
}

// external sends a request as another program would, with some trace headers.
func (w *hworld) external(h *hop) {
	r := rand.New(rand.NewSource(int64(h.q)*31 + int64(w.no)))
	f := w.svcs[h.svc].fmt
	if r.Intn(4) == 0 {
		f = r.Intn(len(chainFormats))
	}
	sc := trace.SpanContext{}
	hdr := http.Header{}
	if r.Intn(4) > 0 {
		sc = randSC(r)
		sc.Tracestate = nil
		if formatNames[f] == "tc" && r.Intn(2) == 0 {
			sc.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint("v", h.q)}, tracestate.Entry{Key: "vendor", Value: "x"})
		}
		ff := chainFormats[f]
		if ff == nil {
			ff = &b3.HTTPFormat{}
		}
		q, _ := http.NewRequest("GET", "http://x", nil)
		ff.SpanContextToRequest(sc, q)
		hdr = q.Header
	}
	ctx := context.WithValue(context.Background(), extKey{}, M{"fmt": f, "x": w.x(sc)})
	w.do(ctx, &http.Client{Transport: extern{outer{w, nil, nil}}}, h, hdr)
}

func (w *hworld) plan(r *rand.Rand, depth int, top bool, left *int) *hop {
	if *left == 0 {
		return nil
	}
	*left--
	w.lno++
	h := &hop{q: w.lno, svc: r.Intn(len(w.svcs)), cli: r.Intn(len(w.clis)), health: r.Intn(8) == 0, post: r.Intn(3) == 0, proxy: r.Intn(4) == 0, detached: r.Intn(8) == 0, local: r.Intn(3) == 0,
		par: r.Intn(2) == 0, lopt: vlib.Pick(r, []int{0, 0, 1, 2, 3}), body: r.Intn(3) * 700, status: vlib.Pick(r, []int{301, 302, 303, 307, 308})}
	// mostly a client of the service's format
	for i := 0; i < 4 && formatNames[w.clis[h.cli].fmt] != formatNames[w.svcs[h.svc].fmt]; i++ {
		h.cli = r.Intn(len(w.clis))
	}
	h.ext = top && r.Intn(3) == 0
	w.hops[h.q] = h
	if depth > 0 {
		for i := r.Intn(4); i > 0; i-- {
			if k := w.plan(r, depth-1, false, left); k != nil {
				h.kids = append(h.kids, k)
			}
		}
		if !h.health && r.Intn(5) == 0 {
			if k := w.plan(r, depth-1, false, left); k != nil {
				h.redir, k.abort = k, false // (a GET now, which the transport may send again)
				return h
			}
		}
	}
	h.abort = !h.health && r.Intn(12) == 0
	return h
}

func (w *hworld) run(r *rand.Rand) {
	trace.RegisterExporter(w)
	defer trace.UnregisterExporter(w)
	for i := 2 + r.Intn(2); i > 0; i-- {
		s := &service{fmt: r.Intn(len(chainFormats)), opt: vlib.Pick(r, []int{0, 0, 0, 1, 2, 3}), public: r.Intn(4) == 0, gs: r.Intn(6) == 0}
		s.h = &ochttp.Handler{Propagation: chainFormats[s.fmt], Handler: http.HandlerFunc(w.serve), IsPublicEndpoint: s.public, StartOptions: trace.StartOptions{Sampler: sampler(s.opt)}}
		if s.gs {
			s.h.GetStartOptions = func(q *http.Request) trace.StartOptions { return trace.StartOptions{Sampler: sampler(qOf(q) % 4)} }
		}
		if !w.loop {
			s.srv = httptest.NewServer(s.h)
		}
		w.svcs = append(w.svcs, s)
	}
	for i := 2 + r.Intn(3); i > 0; i-- {
		c := &client{fmt: r.Intn(len(chainFormats)), opt: vlib.Pick(r, []int{0, 0, 0, 1, 2, 3}), gs: r.Intn(6) == 0}
		c.t = &ochttp.Transport{Base: wireRT{w, false}, Propagation: chainFormats[c.fmt], StartOptions: trace.StartOptions{Sampler: sampler(c.opt)}}
		if c.gs {
			c.t.GetStartOptions = func(q *http.Request) trace.StartOptions {
				return trace.StartOptions{Sampler: sampler((qOf(q) + 1) % 4)}
			}
		}
		c.c = &http.Client{Transport: outer{w, c, c.t}}
		w.clis = append(w.clis, c)
	}
	n := 1 + r.Intn(3)
	left := 3 + r.Intn(8)
	tops := make([][]*hop, n+1)
	for i := 1; i <= n; i++ {
		for k := 1 + r.Intn(2); k > 0; k-- {
			if h := w.plan(r, 3, true, &left); h != nil {
				tops[i] = append(tops[i], h)
			}
		}
	}
	vlib.Par(w.tr, n, func(th int) { w.calls(context.Background(), tops[th], nil) })
	if !w.loop {
		for _, s := range w.svcs {
			s.srv.Close()
		}
	}
	w.emu.Lock()
	out := w.out
	w.emu.Unlock()
	if out == nil {
		out = []M{}
	}
	w.tr.Call("end", M{"exps": out})
}

func TestChain(t *testing.T) {
	e := vlib.Open(t)
	no := 0
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		no++
		w := &hworld{loop: e.Mode == "loop", hops: map[int]*hop{}}
		w.tr, w.no, w.live = tr, no, true
		w.def = 1 + r.Intn(3)
		trace.ApplyConfig(trace.Config{DefaultSampler: sampler(w.def)})
		w.run(r)
	})
}
