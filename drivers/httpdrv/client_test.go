//go:build go1.25

package httpdrv

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptrace"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

// cworld is shared by the requests of one trace
type cworld struct {
	world
	mu2  sync.Mutex
	exps map[trace.SpanID][]M
	n    int
	asks []*sendreq
}

// ExportSpan keeps a span that ended.
func (w *cworld) ExportSpan(s *trace.SpanData) {
	if s.Name == "local" {
		return
	}
	e := w.sc(s.SpanContext)
	e["p"] = 0
	if s.ParentSpanID != (trace.SpanID{}) {
		e["p"] = w.sids.ID(s.ParentSpanID)
	}
	e["rem"], e["kind"], e["name"], e["links"], e["code"], e["msg"], e["attrs"] = s.HasRemoteParent, s.SpanKind, s.Name, []M{}, s.Code, s.Message, attrs(s.Attributes)
	if len(s.Links) > 0 {
		e["links"] = []M{{}}
	}
	e["from"], e["to"] = 0, 0
	if !w.live {
		e["from"], e["to"] = int(s.StartTime.Sub(w.t0)/time.Millisecond), int(s.EndTime.Sub(w.t0)/time.Millisecond)
	}
	w.mu2.Lock()
	defer w.mu2.Unlock()
	w.n++
	w.exps[s.SpanID] = append(w.exps[s.SpanID], e)
}

// chunk is one read of a body
type chunk struct {
	b   string
	err error
}

type fbody struct {
	script []chunk
	cerr   error
	closed int
	last   chunk
	fill   byte
	wrote  []string
}

func (b *fbody) Read(p []byte) (int, error) {
	if len(b.script) == 0 {
		b.last = chunk{"", io.EOF}
		return 0, io.EOF
	}
	c := b.script[0]
	b.script = b.script[1:]
	n := copy(p, c.b)
	b.last = chunk{c.b[:n], c.err}
	return n, c.err
}
func (b *fbody) Close() error { b.closed++; return b.cerr }

type wbody struct{ *fbody }

func (b wbody) Write(p []byte) (int, error) {
	b.wrote = append(b.wrote, string(p))
	return len(p) / 2, errWrite
}

// sendreq is one request under way
type sendreq struct {
	w       *cworld
	id      int
	r       *rand.Rand
	host    string
	orig    *http.Request
	format  propagation.HTTPFormat
	sid     trace.SpanID
	err     error
	resp    *http.Response
	hdr     http.Header
	body    *fbody
	writer  bool
	nilbody bool
	cspans  []*trace.Span
	cts     int
	lts     int
	cancels int
	t       *ochttp.Transport
	path    string
	health  bool
	pathTag string
}

type base struct{}

func (base) CancelRequest(q *http.Request) {
	a := q.Context().Value(askKey{}).(*sendreq)
	a.cancels++
}

func (base) RoundTrip(q *http.Request) (*http.Response, error) {
	a := q.Context().Value(askKey{}).(*sendreq)
	w, r := a.w, a.r
	sp := trace.FromContext(q.Context())
	e := M{"t": 0, "s": 0, "smp": false}
	ts := 0
	if sp != nil {
		e = w.sc(sp.SpanContext())
		ts = w.ts(sp.SpanContext().Tracestate)
		a.sid = sp.SpanContext().SpanID
	}
	f := a.format
	if f == nil {
		f = &b3.HTTPFormat{}
	}
	inj, _ := f.SpanContextFromRequest(q)
	good := q.Method == a.orig.Method && q.URL.String() == a.orig.URL.String() && q.Body == a.orig.Body && q.Host == a.orig.Host && q.ContentLength == a.orig.ContentLength
	for k, v := range a.orig.Header {
		if !strings.HasPrefix(k, "X-B3") && k != "Traceparent" && k != "Tracestate" {
			good = good && reflect.DeepEqual(q.Header[k], v)
		}
	}
	if a.cts > 0 && !a.health {
		ct := httptrace.ContextClientTrace(q.Context())
		good = good && ct != nil && len(a.cspans) == 1 && a.cspans[0] == sp
		if ct != nil && ct.GotFirstResponseByte != nil {
			was := a.cts
			ct.GotFirstResponseByte()
			good = good && a.cts == was+1
		} else {
			good = false
		}
	}
	if a.health {
		good = good && q == a.orig
	}
	e["id"], e["inj"], e["good"], e["ts"], e["lts"] = a.id, w.sc(inj), good, ts, a.lts
	w.tr.Call("base", e)
	if !w.live {
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
	if r.Intn(5) == 0 {
		a.err = errors.New(vlib.Pick(r, []string{"refused", "timeout", "x"}))
		if r.Intn(4) == 0 {
			a.resp = &http.Response{StatusCode: 502}
			a.nilbody = true
		}
		w.tr.Call("fail", M{"id": a.id, "msg": a.err.Error(), "at": w.at()})
		return a.resp, a.err
	}
	s := vlib.Pick(r, codes)
	n := vlib.Pick(r, []int64{-1, -1, 0, 7, 100, vlib.Pick(r, bigs)})
	a.hdr = http.Header{"Zz": {"1"}}
	a.resp = &http.Response{StatusCode: s, Status: fmt.Sprint(s, " whatever"), ContentLength: n, Header: a.hdr, Request: q}
	if r.Intn(6) == 0 {
		a.nilbody = true
	} else {
		a.body = &fbody{}
		for i := r.Intn(5); i > 0; i-- {
			c := chunk{b: strings.Repeat(string([]byte{byte('a' + i)}), vlib.Pick(r, []int{0, 1, 5, 30}))}
			switch r.Intn(6) {
			case 0:
				c.err = io.EOF
			case 1:
				c.err = errors.New(vlib.Pick(r, []string{"reset", "broken"}))
			case 2:
				c.err = vlib.Pick(r, []error{io.ErrUnexpectedEOF, context.Canceled})
			}
			a.body.script = append(a.body.script, c)
		}
		if r.Intn(4) == 0 {
			a.body.cerr = errors.New("close")
		}
		a.resp.Body = a.body
		if a.writer = r.Intn(3) == 0; a.writer {
			a.resp.Body = wbody{a.body}
		}
	}
	w.tr.Call("answer", M{"id": a.id, "s": s, "n": num(n), "body": !a.nilbody, "at": w.at()})
	return a.resp, nil
}

// after is an event that tells the spans exported for the request.
func (a *sendreq) after(e, op string, m M) {
	a.w.mu2.Lock()
	x := append([]M{}, a.w.exps[a.sid]...)
	a.w.mu2.Unlock()
	if a.health { // not its own
		x = []M{}
	}
	m["id"], m["exps"], m["at"] = a.id, x, a.w.at()
	if e == "ret" {
		a.w.tr.Ret(a.id, op, m)
	} else {
		a.w.tr.Call(op, m)
	}
	if a.w.live {
		a.w.cstats(a)
	}
}

func (w *cworld) send(id int, r *rand.Rand, t *ochttp.Transport, common M) *sendreq {
	host := fmt.Sprintf("c%d-%d.test", w.no, id)
	a := &sendreq{w: w, id: id, r: r, host: host, format: t.Propagation}
	a.path = vlib.Pick(r, []string{"/", "/a", "/a/b", "/healthz", "/_ah/health", "/healthz/x", "/caf%C3%A9", "/del%7F", "/" + strings.Repeat("l", 254), "/" + strings.Repeat("l", 255)})
	a.health = a.path == "/healthz" || a.path == "/_ah/health"
	method := vlib.Pick(r, []string{"GET", "GET", "POST", "HEAD", "PUT"})
	q, _ := http.NewRequest(method, "http://"+host+a.path+vlib.Pick(r, []string{"", "?q=1"}), nil)
	a.path = q.URL.Path
	body := false
	switch r.Intn(6) {
	case 0:
		q.Body, body = http.NoBody, true
	case 1, 2:
		clen := 1 + r.Intn(500)
		body, q.Body, q.ContentLength = true, io.NopCloser(strings.NewReader(strings.Repeat("x", clen))), int64(clen)
	case 4:
		body, q.Body, q.ContentLength = true, io.NopCloser(strings.NewReader("x")), vlib.Pick(r, bigs)
	case 3:
		body = true
		q.Body, q.ContentLength = io.NopCloser(strings.NewReader("x")), -1
	}
	ua := vlib.Pick(r, []string{"", "agent/2", "agent/2", " ", " a/2 (b; c) ", "\u00e9"})
	if ua != "" || r.Intn(4) == 0 {
		q.Header.Set("User-Agent", ua)
	}
	if r.Intn(2) == 0 {
		q.Header["X-Multi"] = []string{"1", "2"}
	}
	if r.Intn(3) == 0 { // an older context
		(&b3.HTTPFormat{}).SpanContextToRequest(randSC(r), q)
		(&tracecontext.HTTPFormat{}).SpanContextToRequest(randSC(r), q)
	}
	if r.Intn(20) == 0 {
		q.Header = nil
	}
	ctx := context.WithValue(context.Background(), askKey{}, a)
	local := trace.SpanContext{}
	if r.Intn(2) == 0 {
		pre := randSC(r)
		if r.Intn(2) == 0 {
			pre.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint(r.Intn(3))})
		}
		var sp *trace.Span
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, "local", pre, trace.WithSampler(sampler(1+r.Intn(2))))
		local = sp.SpanContext()
		defer sp.End()
	}
	a.lts = w.ts(local.Tracestate)
	if t.NewClientTrace != nil {
		a.cts = 1
	}
	q = q.WithContext(ctx)
	a.orig = q
	opt := common["opt"].(int)
	if t.GetStartOptions != nil {
		opt = id % 4
	}
	name := a.path
	if t.FormatSpanName != nil {
		name = "n" + host
	}
	at := map[string]interface{}{ochttp.PathAttribute: a.path, ochttp.URLAttribute: q.URL.String(), ochttp.HostAttribute: host, ochttp.MethodAttribute: method}
	if q.UserAgent() != "" {
		at[ochttp.UserAgentAttribute] = ua
	}
	before, hdr := *q, q.Header.Clone()
	w.tr.Inv(id, "send", M{"id": id, "health": a.health, "local": w.sc(local), "def": w.def, "opt": opt, "body": body, "clen": num(q.ContentLength), "method": method, "name": name, "attrs": attrs(at), "live": w.live, "at": w.at()})
	a.t = t
	resp, err := t.RoundTrip(q)
	same := err == a.err && (resp == nil) == (a.resp == nil)
	if resp != nil && a.resp != nil {
		same = same && resp.StatusCode == a.resp.StatusCode && resp.Status == a.resp.Status && resp.ContentLength == a.resp.ContentLength && reflect.DeepEqual(resp.Header, a.hdr) && (resp.Body == nil) == a.nilbody
		if resp.Body != nil {
			_, isw := resp.Body.(io.Writer)
			same = same && isw == a.writer
		}
		a.resp = resp
	}
	unmod := reflect.DeepEqual(q.Header, hdr) && before.Context() == q.Context() && before.URL == q.URL && before.Body == q.Body && before.Method == q.Method && before.Host == q.Host && before.ContentLength == q.ContentLength
	a.after("ret", "send", M{"same": same, "unmod": unmod})
	return a
}

// use reads and closes the body
func (a *sendreq) use() {
	r := a.r
	if a.resp == nil || a.err != nil || a.nilbody || a.resp.Body == nil {
		return
	}
	body := a.resp.Body
	for k := 1 + r.Intn(7); k > 0; k-- {
		if !a.w.live {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		switch r.Intn(8) {
		case 0, 1:
			was := a.body.closed
			err := body.Close()
			a.after("call", "close", M{"same": err == a.body.cerr && a.body.closed == was+1})
		case 2:
			if wr, ok := body.(io.Writer); ok && a.writer {
				was := len(a.body.wrote)
				n, err := wr.Write([]byte("hello"))
				a.after("call", "other", M{"same": n == 2 && err == errWrite && len(a.body.wrote) == was+1 && a.body.wrote[was] == "hello"})
			}
		case 3:
			if _, ok := a.t.Base.(base); ok && !a.w.live { // reaches the transport underneath
				was := a.cancels
				a.t.CancelRequest(a.orig)
				a.after("call", "other", M{"same": a.cancels == was+1})
			}
		default:
			p := make([]byte, vlib.Pick(r, []int{30, 64}))
			n, err := body.Read(p)
			l := a.body.last
			e := ""
			if l.err == io.EOF {
				e = "EOF"
			} else if l.err != nil {
				e = l.err.Error()
			}
			a.after("call", "read", M{"n": len(l.b), "err": e, "same": n == len(l.b) && err == l.err && n >= 0 && n <= len(p) && string(p[:n]) == l.b})
		}
	}
}

var clientViews = map[string]*view.View{}

func mkClientViews() {
	keys := []tag.Key{ochttp.Host, ochttp.Method, ochttp.Path, ochttp.StatusCode, ochttp.KeyClientHost, ochttp.KeyClientMethod, ochttp.KeyClientPath, ochttp.KeyClientStatus}
	for _, v := range []*view.View{{Name: "count", Measure: ochttp.ClientRequestCount}, {Name: "sent", Measure: ochttp.ClientSentBytes}, {Name: "received", Measure: ochttp.ClientReceivedBytes},
		{Name: "rtt", Measure: ochttp.ClientRoundtripLatency}, {Name: "latency", Measure: ochttp.ClientLatency}, {Name: "resp", Measure: ochttp.ClientResponseBytes}, {Name: "reqs", Measure: ochttp.ClientRequestBytes}} {
		v.TagKeys, v.Aggregation = keys, view.Distribution(0)
		clientViews[v.Name] = v
	}
}

var tagNames = map[tag.Key]string{ochttp.Host: "host", ochttp.Method: "method", ochttp.Path: "path", ochttp.StatusCode: "status", ochttp.KeyClientHost: "chost", ochttp.KeyClientMethod: "cmethod",
	ochttp.KeyClientPath: "cpath", ochttp.KeyClientStatus: "cstatus"}

// cstats logs what was recorded for a request
func (w *cworld) cstats(a *sendreq) {
	e := M{"id": a.id, "host": a.host, "path": tagValue(a.path)}
	for name, v := range clientViews {
		rows, err := view.RetrieveData(v.Name)
		if err != nil {
			panic(err)
		}
		out := []M{}
		for _, row := range rows {
			m := M{"host": "", "method": "", "path": "", "status": 0, "chost": "", "cmethod": "", "cpath": "", "cstatus": 0}
			for _, t := range row.Tags {
				k := tagNames[t.Key]
				m[k] = t.Value
				if k == "status" || k == "cstatus" {
					s, err := strconv.Atoi(t.Value)
					if err != nil {
						s = -1
					}
					m[k] = s
				}
			}
			if m["host"] != a.host && m["chost"] != a.host {
				continue
			}
			d := row.Data.(*view.DistributionData)
			s := d.Sum()
			if s < 0 {
				s -= 1
			}
			m["n"], m["sum"] = int(d.Count), num(int64(s+0.5))
			out = append(out, m)
		}
		e[name] = out
	}
	w.tr.Call("stats", e)
}

func newTransport(r *rand.Rand) (*ochttp.Transport, M) {
	t := &ochttp.Transport{Base: base{}, Propagation: vlib.Pick(r, []propagation.HTTPFormat{nil, nil, &b3.HTTPFormat{}, &tracecontext.HTTPFormat{}})}
	opt := r.Intn(4)
	t.StartOptions = trace.StartOptions{Sampler: sampler(opt), SpanKind: vlib.Pick(r, []int{0, trace.SpanKindServer})}
	if r.Intn(3) == 0 {
		t.GetStartOptions = func(q *http.Request) trace.StartOptions {
			return trace.StartOptions{Sampler: sampler(q.Context().Value(askKey{}).(*sendreq).id % 4)}
		}
	}
	if r.Intn(2) == 0 {
		t.FormatSpanName = func(q *http.Request) string { return "n" + q.URL.Host }
	}
	if r.Intn(3) == 0 {
		t.NewClientTrace = func(q *http.Request, s *trace.Span) *httptrace.ClientTrace {
			a := q.Context().Value(askKey{}).(*sendreq)
			a.cspans = append(a.cspans, s)
			return &httptrace.ClientTrace{GotFirstResponseByte: func() { a.cts++ }}
		}
	}
	return t, M{"opt": opt}
}

func (w *cworld) drive(r *rand.Rand) {
	w.t0 = time.Now()
	trace.RegisterExporter(w)
	defer trace.UnregisterExporter(w)
	t, common := newTransport(r)
	n := 1 + r.Intn(4)
	as := make([]*sendreq, n+1)
	if r.Intn(3) == 0 { // one after another, then the bodies
		for id := 1; id <= n; id++ {
			as[id] = w.send(id, r, t, common)
		}
		for _, id := range r.Perm(n) {
			as[id+1].use()
		}
	} else {
		seeds := []int64{0}
		for id := 1; id <= n; id++ {
			seeds = append(seeds, r.Int63())
		}
		vlib.Par(w.tr, n, func(id int) {
			a := w.send(id, rand.New(rand.NewSource(seeds[id])), t, common)
			as[id] = a
			a.use()
		})
	}
	w.tr.Call("end", M{"n": w.n})
	w.asks = as
}

func TestClient(t *testing.T) {
	e := vlib.Open(t)
	mkClientViews()
	no := 0
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		no++
		w := &cworld{world: world{tr: tr, no: no, live: e.Mode == "live", def: 1 + r.Intn(3)}, exps: map[trace.SpanID][]M{}}
		register(clientViews, true)
		defer register(clientViews, false)
		trace.ApplyConfig(trace.Config{DefaultSampler: sampler(w.def)})
		if w.live {
			w.drive(r)
		} else {
			synctest.Test(t, func(*testing.T) { w.drive(r) })
		}
		for _, a := range w.asks {
			if a != nil {
				w.cstats(a)
			}
		}
	})
}
