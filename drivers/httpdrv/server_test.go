//go:build go1.25

// Package httpdrv drives the HTTP instrumentation.
package httpdrv

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

type M = vlib.M

// world is shared by the requests of one trace
type world struct {
	tr   *vlib.Trace
	no   int
	t0   time.Time
	tids vlib.Intern[trace.TraceID]
	sids vlib.Intern[trace.SpanID]
	tss  vlib.Intern[string]
	mu   sync.Mutex
	urls []string // hosts of the requests, by number
	live bool
	def  int
	exps int
}

func (w *world) at() int {
	if w.live {
		return 0
	}
	return int(time.Since(w.t0) / time.Millisecond)
}

func (w *world) ts(t *tracestate.Tracestate) int {
	if t == nil || len(t.Entries()) == 0 {
		return 0
	}
	return w.tss.ID(fmt.Sprint(t.Entries()))
}

func (w *world) sc(sc trace.SpanContext) M {
	m := M{"t": 0, "s": 0, "smp": sc.IsSampled()}
	if sc.TraceID != (trace.TraceID{}) {
		m["t"] = w.tids.ID(sc.TraceID)
	}
	if sc.SpanID != (trace.SpanID{}) {
		m["s"] = w.sids.ID(sc.SpanID)
	}
	return m
}

func attrs(m map[string]interface{}) [][]string {
	out := [][]string{}
	for k, v := range m {
		out = append(out, []string{k, fmt.Sprintf("%T %v", v, v)})
	}
	return out
}

// ExportSpan logs a span that ended.
func (w *world) ExportSpan(s *trace.SpanData) {
	e := w.sc(s.SpanContext)
	e["p"] = 0
	if s.ParentSpanID != (trace.SpanID{}) {
		e["p"] = w.sids.ID(s.ParentSpanID)
	}
	e["rem"], e["kind"], e["name"] = s.HasRemoteParent, s.SpanKind, s.Name
	links := []M{}
	for _, l := range s.Links {
		links = append(links, M{"t": w.tids.ID(l.TraceID), "s": w.sids.ID(l.SpanID), "ty": int(l.Type)})
	}
	e["links"], e["code"], e["msg"] = links, s.Code, s.Message
	at := map[string]interface{}{}
	status := -1
	for k, v := range s.Attributes {
		if k == ochttp.StatusCodeAttribute {
			if x, ok := v.(int64); ok {
				status = int(x)
			}
		} else {
			at[k] = v
		}
	}
	e["status"], e["attrs"] = status, attrs(at)
	sends, recvs := []int{}, []int{}
	for _, x := range s.MessageEvents {
		switch {
		case x.EventType == trace.MessageEventTypeSent && x.UncompressedByteSize != 0:
			sends = append(sends, num(x.UncompressedByteSize))
		case x.EventType == trace.MessageEventTypeRecv && x.UncompressedByteSize != 0:
			recvs = append(recvs, num(x.UncompressedByteSize))
		}
	}
	e["sends"], e["recvs"] = sends, recvs
	e["from"], e["to"], e["at"] = 0, 0, 0
	if !w.live {
		e["from"], e["to"], e["at"] = int(s.StartTime.Sub(w.t0)/time.Millisecond), int(s.EndTime.Sub(w.t0)/time.Millisecond), w.at()
	}
	w.mu.Lock()
	w.exps++
	w.mu.Unlock()
	w.tr.Call("exp", e)
}

func sampler(i int) trace.Sampler {
	switch i {
	case 1:
		return trace.AlwaysSample()
	case 2:
		return trace.NeverSample()
	case 3:
		return trace.ProbabilitySampler(0)
	}
	return nil
}

// format gives what the header of the driver says.
type format struct{ m *sync.Map }

func (f format) SpanContextFromRequest(r *http.Request) (trace.SpanContext, bool) {
	v, ok := f.m.Load(r.Header.Get("Zz-Id"))
	if !ok {
		return trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{9}, TraceOptions: 1}, false
	}
	return v.(trace.SpanContext), true
}
func (f format) SpanContextToRequest(trace.SpanContext, *http.Request) {}

var _ propagation.HTTPFormat = format{}

func randSC(r *rand.Rand) trace.SpanContext {
	sc := trace.SpanContext{TraceOptions: trace.TraceOptions(r.Intn(2))}
	r.Read(sc.TraceID[:])
	r.Read(sc.SpanID[:])
	sc.TraceID[0] |= 1
	sc.SpanID[0] |= 1
	return sc
}

// fake is an http.ResponseWriter that notes what arrives.
type fake struct {
	got   []string
	h     http.Header
	fail  bool
	cn    chan bool
	conn  net.Conn
	herr  error
	perr  error
	wrote int
}

func (f *fake) Header() http.Header { return f.h }
func (f *fake) WriteHeader(s int)   { f.got = append(f.got, fmt.Sprint("wh ", s)) }

var errWrite = errors.New("write failed")

func (f *fake) Write(b []byte) (int, error) {
	f.got = append(f.got, fmt.Sprintf("write %x", b))
	n := len(b)
	if f.fail {
		n /= 2
		f.wrote += n
		return n, errWrite
	}
	f.wrote += n
	return n, nil
}

type hjF struct{ *fake }

func (f hjF) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	f.got = append(f.got, "hijack")
	return f.conn, nil, f.herr
}

type cnF struct{ *fake }

func (f cnF) CloseNotify() <-chan bool { f.got = append(f.got, "cn"); return f.cn }

type puF struct{ *fake }

func (f puF) Push(t string, o *http.PushOptions) error {
	f.got = append(f.got, fmt.Sprint("push ", t, o))
	return f.perr
}

type flF struct{ *fake }

func (f flF) Flush() { f.got = append(f.got, "flush") }

type rfF struct{ *fake }

func (f rfF) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if f.fail {
		b = b[:len(b)/2]
		err = errWrite
	}
	f.got = append(f.got, fmt.Sprintf("rf %x", b))
	f.wrote += len(b)
	return int64(len(b)), err
}

// ask is one request
type ask struct {
	w      *world
	id     int
	r      *rand.Rand
	f      *fake
	req    *http.Request
	hdr    http.Header
	host   string
	mask   int
	prog   int
	panics interface{}
	routes []string
	lts    int
	rts    int
	body   []byte
	took   int
}

type askKey struct{}

var codes = []int{200, 201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 409, 422, 429, 499, 500, 501, 502, 503, 504, 505, 599, 600, 999, 418, 100, 101, 102, 103}
var liveCodes = []int{200, 201, 206, 301, 400, 401, 403, 404, 409, 418, 422, 429, 499, 500, 501, 503, 504, 599, 103, 102}

// serve is what the instrumented handler does
func (a *ask) serve(rw http.ResponseWriter, q *http.Request) {
	w, r := a.w, a.r
	sp := trace.FromContext(q.Context())
	e := M{"t": 0, "s": 0, "smp": false, "ts": 0}
	if sp != nil {
		e = w.sc(sp.SpanContext())
		e["ts"] = w.ts(sp.SpanContext().Tracestate)
	}
	ifs := []bool{}
	hj, x0 := rw.(http.Hijacker)
	cn, x1 := rw.(http.CloseNotifier)
	pu, x2 := rw.(http.Pusher)
	fl, x3 := rw.(http.Flusher)
	rf, x4 := rw.(io.ReaderFrom)
	ifs = append(ifs, x0, x1, x2, x3, x4)
	e["id"], e["ifs"], e["lts"], e["rts"] = a.id, ifs, a.lts, a.rts
	good := q.Method == a.req.Method && (w.live || q.URL == a.req.URL && q.Body == a.req.Body && reflect.DeepEqual(q.Header, a.hdr) && q.ContentLength == a.req.ContentLength && q.Context().Value(askKey{}) == a) && q.Host == a.host
	tagged := true
	for _, rt := range a.routes {
		v, ok := tag.FromContext(q.Context()).Value(ochttp.KeyServerRoute)
		tagged = tagged && ok && (v == rt || len(a.routes) > 1)
	}
	e["good"], e["tagged"] = good, tagged
	w.tr.Call("in", e)
	out := func(p bool) { w.tr.Call("out", M{"id": a.id, "pan": p}) }
	// same: underneath arrived what was called
	did := func(op string, m M, from int, want ...string) {
		m["id"] = a.id
		if !w.live {
			got := a.f.got[from:]
			m["same"] = len(got) == len(want) && (len(want) == 0 || reflect.DeepEqual(got, want)) && m["same"] != false
		}
		w.tr.Call(op, m)
	}
	if w.live && r.Intn(2) == 0 {
		io.Copy(io.Discard, q.Body)
	}
	for k := a.prog; k > 0; k-- {
		from := 0
		if !w.live {
			from = len(a.f.got)
		}
		switch r.Intn(14) {
		case 0, 1:
			s := vlib.Pick(r, codes)
			if w.live {
				s = vlib.Pick(r, liveCodes)
			}
			rw.WriteHeader(s)
			did("wh", M{"s": s}, from, fmt.Sprint("wh ", s))
		case 2, 3, 4:
			b := make([]byte, vlib.Pick(r, []int{0, 1, 3, 10, 700, 5000}))
			r.Read(b)
			if !w.live {
				b = b[:len(b)%100]
				a.f.fail = r.Intn(8) == 0
			}
			n, err := rw.Write(b)
			m := M{"n": n}
			if !w.live {
				m["same"] = (err == errWrite) == a.f.fail && (err == nil || a.f.fail) && n == len(b)/(1+b2i(a.f.fail))
			}
			did("write", m, from, fmt.Sprintf("write %x", b))
		case 5, 6:
			if x4 {
				b := make([]byte, vlib.Pick(r, []int{0, 2, 9, 600, 3000}))
				r.Read(b)
				if !w.live {
					b = b[:len(b)%100]
					a.f.fail = r.Intn(8) == 0
				}
				n, err := rf.ReadFrom(bytes.NewReader(b))
				m := M{"n": int(n)}
				kept := b
				if !w.live {
					if a.f.fail {
						kept = b[:len(b)/2]
					}
					m["same"] = (err == errWrite) == a.f.fail && (err == nil || a.f.fail) && int(n) == len(kept)
				} else if n == 0 {
					break // what this sends depends on the server
				}
				did("rf", m, from, fmt.Sprintf("rf %x", kept))
			}
		case 7:
			if x3 {
				fl.Flush()
				did("flush", M{}, from, "flush")
			}
		case 8:
			if x2 && !w.live {
				a.f.perr = vlib.Pick(r, []error{nil, errWrite})
				o := &http.PushOptions{Method: "GET"}
				err := pu.Push("/p", o)
				did("other", M{"same": err == a.f.perr}, from, fmt.Sprint("push ", "/p", o))
			}
		case 9:
			if x1 && !w.live {
				c := cn.CloseNotify()
				did("other", M{"same": c == (<-chan bool)(a.f.cn)}, from, "cn")
			}
		case 10:
			rt := vlib.Pick(r, []string{"/r1", "/r2", "/a/:id", "/caf\u00e9", "/" + strings.Repeat("r", 255)})
			ochttp.SetRoute(q.Context(), rt)
			if tagValue(rt) == "" { // no tag can have it: no route of the request
				break
			}
			w.tr.Call("route", M{"id": a.id, "x": rt, "set": true})
		case 11:
			key := fmt.Sprint("X-", r.Intn(3))
			rw.Header().Set(key, "v")
			if !w.live {
				did("other", M{"same": a.f.h.Get(key) == "v"}, from)
			}
		case 12:
			if !w.live {
				time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			}
		default:
			switch r.Intn(6) {
			case 0:
				if x0 && !w.live {
					a.f.herr = vlib.Pick(r, []error{nil, errWrite})
					c, _, err := hj.Hijack()
					did("hijack", M{"same": c == a.f.conn && err == a.f.herr}, from, "hijack")
					if r.Intn(2) == 0 {
						k = 1
					}
				}
			case 1, 2:
				if w.live {
					out(true)
					panic(http.ErrAbortHandler)
				}
				a.panics = vlib.Pick(r, []interface{}{http.ErrAbortHandler, "boom", 7})
				out(true)
				panic(a.panics)
			}
		}
	}
	out(false)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sizes that need more than 31 bits; TLC has no such integers
var bigs = []int64{1<<31 - 1, 1 << 31, 1<<32 + 5, 7 << 40}

func num(n int64) int {
	for i, b := range bigs {
		if n == b {
			return 2000000000 + i
		}
	}
	if n >= 2000000000 || n < -2000000000 {
		return 2000000099
	}
	return int(n)
}

// tagValue is s if it can be the value of a tag, otherwise ""
func tagValue(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			return ""
		}
	}
	if len(s) > 255 {
		return ""
	}
	return s
}

// once per program: requests through the default mux
var defaultMux sync.Once

func (w *world) request(id int, r *rand.Rand, h *ochttp.Handler, remotes *sync.Map, common M) {
	w.mu.Lock()
	host := w.urls[id]
	w.mu.Unlock()
	a := &ask{w: w, id: id, r: r, host: host, prog: r.Intn(7), mask: r.Intn(32)}
	a.f = &fake{h: http.Header{}, cn: make(chan bool), herr: nil}
	path := vlib.Pick(r, []string{"/", "/a", "/a/b", "/healthz", "/_ah/health", "/healthz/x", "/zzskip", "/zzdef/q", "/caf%C3%A9", "/del%7F", "/" + strings.Repeat("l", 254), "/" + strings.Repeat("l", 255)})
	if h.Handler == nil {
		path = "/zzdef/q"
	}
	method := vlib.Pick(r, []string{"GET", "POST", "PUT", "HEAD", "DELETE"})
	q, _ := http.NewRequest(method, "http://"+host+path+vlib.Pick(r, []string{"", "?x=1"}), nil)
	q.Host, path = host, q.URL.Path
	body := false
	switch r.Intn(7) {
	case 0:
		q.Body = http.NoBody
	case 1, 2:
		clen := 1 + r.Intn(500)
		body, q.Body, q.ContentLength = true, io.NopCloser(strings.NewReader(strings.Repeat("x", clen))), int64(clen)
	case 5: // says so
		body, q.Body, q.ContentLength = true, io.NopCloser(strings.NewReader("x")), vlib.Pick(r, bigs)
	case 3:
		body = true
		q.Body, q.ContentLength = io.NopCloser(strings.NewReader("x")), -1
	case 4:
		body = true
		q.Body, q.ContentLength = io.NopCloser(strings.NewReader("")), 0
	}
	ua := vlib.Pick(r, []string{"", "agent/1", "agent/1", " ", " a/1 (b; c) ", "\u00e9"})
	if ua != "" || r.Intn(4) == 0 {
		q.Header.Set("User-Agent", ua)
	}
	for _, k := range []string{"Expect", "Connection", "X-Forwarded-For", "Traceparent", "X-B3-Sampled", "Content-Encoding"} {
		if r.Intn(6) == 0 {
			q.Header[k] = vlib.Pick(r, [][]string{{"100-continue"}, {"x", "y"}, {""}})
		}
	}
	key := fmt.Sprint(w.no, "-", id)
	q.Header.Set("Zz-Id", key)
	remote := trace.SpanContext{}
	if r.Intn(3) > 0 {
		remote = randSC(r)
		if h.Propagation == nil {
			(&b3.HTTPFormat{}).SpanContextToRequest(remote, q)
		} else {
			if r.Intn(2) == 0 {
				remote.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint(r.Intn(3))})
			}
			remotes.Store(key, remote)
		}
	}
	a.rts = w.ts(remote.Tracestate)
	health := path == "/healthz" || path == "/_ah/health" || path == "/zzskip" && h.IsHealthEndpoint != nil
	local := trace.SpanContext{}
	ctx := context.WithValue(context.Background(), askKey{}, a)
	if !health && r.Intn(4) == 0 {
		var sp *trace.Span
		pre := randSC(r)
		if r.Intn(2) == 0 {
			pre.TraceID = remote.TraceID
		}
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, "local", pre, trace.WithSampler(vlib.Pick(r, []trace.Sampler{trace.AlwaysSample(), trace.NeverSample()})))
		local = sp.SpanContext()
	}
	q = q.WithContext(ctx)
	a.req, a.hdr = q, q.Header.Clone()
	opt := common["opt"].(int)
	if h.GetStartOptions != nil {
		opt = id % 4
	}
	name := path
	if h.FormatSpanName != nil {
		name = "n" + key
	}
	e := M{"id": id, "health": health, "public": h.IsPublicEndpoint, "remote": w.sc(remote), "local": w.sc(local), "def": w.def, "opt": opt, "body": body, "clen": num(q.ContentLength), "name": name, "live": false, "at": w.at()}
	at := map[string]interface{}{ochttp.PathAttribute: path, ochttp.URLAttribute: q.URL.String(), ochttp.HostAttribute: host, ochttp.MethodAttribute: method}
	if ua != "" {
		at[ochttp.UserAgentAttribute] = ua
	}
	ifs := []bool{}
	for i := 0; i < 5; i++ {
		ifs = append(ifs, a.mask>>uint(i)&1 == 1)
	}
	e["attrs"], e["ifs"] = attrs(at), ifs
	if h.Handler != nil { // the route wrapper
		for i := r.Intn(3) - 1; i > 0; i-- {
			a.routes = append(a.routes, vlib.Pick(r, []string{"/w1", "/w2"}))
		}
	}
	w.tr.Inv(id, "serve", e)
	for _, rt := range a.routes {
		w.tr.Call("route", M{"id": id, "x": rt, "set": false})
	}
	t1 := w.at()
	var rec interface{}
	pan := true
	func() {
		defer func() {
			if pan {
				rec = recover()
			}
		}()
		h.ServeHTTP(combo(a.mask, a.f, hjF{a.f}, cnF{a.f}, puF{a.f}, flF{a.f}, rfF{a.f}), q)
		pan = false
	}()
	a.took = w.at() - t1
	w.tr.Ret(id, "serve", M{"id": id, "pan": pan, "val": rec == a.panics, "at": w.at()})
	w.mu.Lock()
	defer w.mu.Unlock()
	w.urls[id] = strings.Join([]string{host, method, "." + tagValue(path), strconv.Itoa(a.took)}, " ")
}

var handler = http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
	a := q.Context().Value(askKey{}).(*ask)
	var h http.Handler = http.HandlerFunc(a.serve)
	for _, rt := range a.routes {
		h = ochttp.WithRouteTag(h, rt)
	}
	h.ServeHTTP(rw, q)
})

func newHandler(r *rand.Rand) (*ochttp.Handler, *sync.Map, M) {
	h := &ochttp.Handler{Handler: handler, IsPublicEndpoint: r.Intn(3) == 0}
	remotes := &sync.Map{}
	if r.Intn(2) == 0 {
		h.Propagation = format{remotes}
	}
	if r.Intn(5) == 0 {
		h.Handler = nil
	}
	opt := r.Intn(4)
	h.StartOptions = trace.StartOptions{Sampler: sampler(opt), SpanKind: vlib.Pick(r, []int{0, trace.SpanKindClient, trace.SpanKindServer})}
	if r.Intn(3) == 0 {
		h.GetStartOptions = func(q *http.Request) trace.StartOptions {
			k := q.Header.Get("Zz-Id")
			id, _ := strconv.Atoi(k[strings.Index(k, "-")+1:])
			return trace.StartOptions{Sampler: sampler(id % 4)}
		}
	}
	if r.Intn(2) == 0 {
		h.FormatSpanName = func(q *http.Request) string { return "n" + q.Header.Get("Zz-Id") }
	}
	if r.Intn(2) == 0 {
		h.IsHealthEndpoint = func(q *http.Request) bool { return q.URL.Path == "/zzskip" }
	}
	return h, remotes, M{"opt": opt}
}

func (w *world) virtual(r *rand.Rand) {
	w.t0 = time.Now()
	h, remotes, common := newHandler(r)
	n := 1 + r.Intn(4)
	for id := 0; id <= n; id++ {
		w.urls = append(w.urls, fmt.Sprintf("h%d-%d.test", w.no, id))
	}
	if r.Intn(3) == 0 {
		for id := 1; id <= n; id++ {
			w.request(id, r, h, remotes, common)
		}
		return
	}
	seeds := []int64{0}
	for id := 1; id <= n; id++ {
		seeds = append(seeds, r.Int63())
	}
	vlib.Par(w.tr, n, func(id int) { w.request(id, rand.New(rand.NewSource(seeds[id])), h, remotes, common) })
}

var serverViews = map[string]*view.View{}

func mkViews() {
	keys := []tag.Key{ochttp.Host, ochttp.Method, ochttp.Path, ochttp.StatusCode, ochttp.KeyServerRoute}
	ag := view.Distribution(0)
	for _, v := range []*view.View{{Name: "count", Measure: ochttp.ServerRequestCount}, {Name: "latency", Measure: ochttp.ServerLatency}, {Name: "reqs", Measure: ochttp.ServerRequestBytes}, {Name: "resp", Measure: ochttp.ServerResponseBytes}} {
		v.TagKeys, v.Aggregation = keys, ag
		serverViews[v.Name] = v
	}
}

func register(vs map[string]*view.View, on bool) {
	for _, v := range vs {
		if on {
			if err := view.Register(v); err != nil {
				panic(err)
			}
		} else {
			view.Unregister(v)
		}
	}
}

// stats logs what was recorded, by request
func (w *world) stats() {
	byHost := map[string]map[string][]M{}
	for name, v := range serverViews {
		rows, err := view.RetrieveData(v.Name)
		if err != nil {
			panic(err)
		}
		for _, row := range rows {
			m := M{"host": "", "method": "", "path": "", "status": 0, "route": ""}
			for _, t := range row.Tags {
				switch t.Key {
				case ochttp.Host:
					m["host"] = t.Value
				case ochttp.Method:
					m["method"] = t.Value
				case ochttp.Path:
					m["path"] = t.Value
				case ochttp.KeyServerRoute:
					m["route"] = t.Value
				case ochttp.StatusCode:
					s, err := strconv.Atoi(t.Value)
					if err != nil {
						s = -1
					}
					m["status"] = s
				}
			}
			d := row.Data.(*view.DistributionData)
			m["n"], m["sum"] = int(d.Count), num(int64(d.Sum()+0.5))
			h := m["host"].(string)
			if byHost[h] == nil {
				byHost[h] = map[string][]M{}
			}
			byHost[h][name] = append(byHost[h][name], m)
		}
	}
	for id := 1; id < len(w.urls); id++ {
		f := strings.Fields(w.urls[id])
		if len(f) < 4 {
			continue
		}
		took, _ := strconv.Atoi(f[3])
		e := M{"id": id, "host": f[0], "method": f[1], "path": f[2][1:], "took": took}
		for name := range serverViews {
			rows := byHost[f[0]][name]
			if rows == nil {
				rows = []M{}
			}
			e[name] = rows
		}
		w.tr.Call("stats", e)
	}
}

func TestServer(t *testing.T) {
	e := vlib.Open(t)
	mkViews()
	http.Handle("/zzdef/", handler)
	no := 0
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		no++
		w := &world{tr: tr, no: no, live: e.Mode == "live", def: 1 + r.Intn(3)}
		register(serverViews, true)
		defer register(serverViews, false)
		trace.ApplyConfig(trace.Config{DefaultSampler: sampler(w.def)})
		if w.live {
			w.served(r)
		} else {
			synctest.Test(t, func(*testing.T) {
				trace.RegisterExporter(w)
				defer trace.UnregisterExporter(w)
				w.virtual(r)
			})
		}
		w.stats()
	})
}

// served runs a real server and real clients.
func (w *world) served(r *rand.Rand) {
	trace.RegisterExporter(w)
	defer trace.UnregisterExporter(w)
	h, remotes, common := newHandler(r)
	n := 1 + r.Intn(4)
	asks := make([]*ask, n+1)
	over := make([]chan bool, n+1)
	w.urls = make([]string, n+1)
	h.Handler = http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		k := q.Header.Get("Zz-Id")
		id, _ := strconv.Atoi(k[strings.Index(k, "-")+1:])
		a := asks[id]
		var in http.Handler = http.HandlerFunc(a.serve)
		for _, rt := range a.routes {
			in = ochttp.WithRouteTag(in, rt)
		}
		in.ServeHTTP(rw, q)
	})
	// the end of ServeHTTP, seen from around it
	outer := http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		k := q.Header.Get("Zz-Id")
		id, _ := strconv.Atoi(k[strings.Index(k, "-")+1:])
		pan := true
		defer func() {
			w.tr.Ret(id, "serve", M{"id": id, "pan": pan, "val": true, "at": 0})
			close(over[id])
		}()
		h.ServeHTTP(rw, q)
		pan = false
	})
	srv := httptest.NewUnstartedServer(outer)
	srv.Start()
	defer srv.Close()
	seeds := []int64{0}
	for id := 1; id <= n; id++ {
		seeds = append(seeds, r.Int63())
		over[id] = make(chan bool)
	}
	vlib.Par(w.tr, n, func(id int) {
		r := rand.New(rand.NewSource(seeds[id]))
		key := fmt.Sprint(w.no, "-", id)
		host := fmt.Sprintf("h%d-%d.test", w.no, id)
		a := &ask{w: w, id: id, r: r, host: host, prog: r.Intn(8)}
		asks[id] = a
		for i := r.Intn(3) - 1; i > 0; i-- {
			a.routes = append(a.routes, "/w1")
		}
		method := vlib.Pick(r, []string{"GET", "POST", "PUT"})
		path := vlib.Pick(r, []string{"/", "/a/b", "/healthz"})
		clen, body := 0, false
		var rd io.Reader
		switch r.Intn(3) {
		case 0:
			clen, body = 1+r.Intn(3000), true
			rd = strings.NewReader(strings.Repeat("y", clen))
		case 1: // chunked
			body = true
			rd = io.MultiReader(strings.NewReader("abc"))
		}
		q, _ := http.NewRequest(method, srv.URL+path, rd)
		q.Host = host
		q.Header.Set("Zz-Id", key)
		q.Header.Set("User-Agent", "live")
		remote := trace.SpanContext{}
		if r.Intn(3) > 0 {
			remote = randSC(r)
			if h.Propagation == nil {
				(&b3.HTTPFormat{}).SpanContextToRequest(remote, q)
			} else {
				remotes.Store(key, remote)
			}
		}
		a.req = q
		opt := common["opt"].(int)
		if h.GetStartOptions != nil {
			opt = id % 4
		}
		name := path
		if h.FormatSpanName != nil {
			name = "n" + key
		}
		at := map[string]interface{}{ochttp.PathAttribute: path, ochttp.URLAttribute: path, ochttp.HostAttribute: host, ochttp.MethodAttribute: method, ochttp.UserAgentAttribute: "live"}
		w.tr.Inv(id, "serve", M{"id": id, "health": path == "/healthz", "public": h.IsPublicEndpoint, "remote": w.sc(remote), "local": w.sc(trace.SpanContext{}), "def": w.def, "opt": opt,
			"body": body, "clen": clen, "name": name, "live": true, "at": 0, "attrs": attrs(at), "ifs": []bool{}})
		for _, rt := range a.routes {
			w.tr.Call("route", M{"id": id, "x": rt, "set": false})
		}
		c := &http.Client{Transport: &http.Transport{DisableKeepAlives: true, DisableCompression: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		resp, err := c.Do(q)
		got := M{"id": id, "err": true, "status": 0, "n": 0}
		if err == nil {
			b, err2 := io.ReadAll(resp.Body)
			resp.Body.Close()
			got["err"], got["status"], got["n"] = err2 != nil, resp.StatusCode, len(b)
		}
		<-over[id]
		w.tr.Call("got", got)
		w.mu.Lock()
		w.urls[id] = strings.Join([]string{host, method, "." + path, "0"}, " ")
		w.mu.Unlock()
	})
}
