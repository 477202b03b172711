//go:build go1.25

package httpdrv

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
)

type hreqKey struct{}

// hreq is one request whose hooks are called.
type hreq struct {
	w             *hkworld
	id            int
	r             *rand.Rand
	name          string
	own, on, live bool
	orig          *http.Request
	made          []*trace.Span
	ct            *httptrace.ClientTrace
	mu            sync.Mutex
	ended         bool
	nown          int
	told          map[string]int
	max           int
	n             int
}

type hkworld struct {
	tr   *vlib.Trace
	mu   sync.Mutex
	out  map[string][]*trace.SpanData
	no   int
	max  int
	ssrv *httptest.Server
}

func (w *hkworld) ExportSpan(s *trace.SpanData) {
	w.mu.Lock()
	w.out[s.Name] = append(w.out[s.Name], s)
	w.mu.Unlock()
}

func et(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func one(k string, a ...string) M {
	if a == nil {
		a = []string{}
	}
	return M{"k": k, "a": a}
}

// mine are the caller's own hooks.
func (h *hreq) mine(say func(M)) *httptrace.ClientTrace {
	return &httptrace.ClientTrace{
		GetConn: func(p string) { say(one("GetConn", p)) },
		GotConn: func(i httptrace.GotConnInfo) {
			say(one("GotConn", fmt.Sprint(i.Reused), fmt.Sprint(i.WasIdle), i.IdleTime.String()))
		},
		PutIdleConn:          func(e error) { say(one("PutIdleConn", et(e))) },
		GotFirstResponseByte: func() { say(one("GotFirstResponseByte")) },
		Got100Continue:       func() { say(one("Got100Continue")) },
		Got1xxResponse:       func(c int, _ textproto.MIMEHeader) error { say(one("Got1xxResponse")); return nil },
		DNSStart:             func(i httptrace.DNSStartInfo) { say(one("DNSStart", i.Host)) },
		DNSDone: func(i httptrace.DNSDoneInfo) {
			a := []string{et(i.Err)}
			for _, x := range i.Addrs {
				a = append(a, x.String())
			}
			say(one("DNSDone", a...))
		},
		ConnectStart:      func(n, a string) { say(one("ConnectStart", n, a)) },
		ConnectDone:       func(n, a string, e error) { say(one("ConnectDone", n, a, et(e))) },
		TLSHandshakeStart: func() { say(one("TLSHandshakeStart")) },
		TLSHandshakeDone:  func(_ tls.ConnectionState, e error) { say(one("TLSHandshakeDone", et(e))) },
		WroteHeaderField:  func(string, []string) { say(one("WroteHeaderField")) },
		WroteHeaders:      func() { say(one("WroteHeaders")) },
		Wait100Continue:   func() { say(one("Wait100Continue")) },
		WroteRequest:      func(i httptrace.WroteRequestInfo) { say(one("WroteRequest", et(i.Err))) },
	}
}

// fire calls one random hook, if there are hooks, and tells which.
func (h *hreq) fire(r *rand.Rand) M {
	ct := h.ct
	if ct == nil {
		ct = &httptrace.ClientTrace{}
	}
	var err error
	if r.Intn(2) == 0 {
		err = fmt.Errorf("e%d", r.Intn(5))
	}
	host := fmt.Sprintf("h%d.test:%d", h.id, r.Intn(9))
	switch r.Intn(16) {
	case 0:
		if ct.GetConn != nil {
			ct.GetConn(host)
		}
		return one("GetConn", host)
	case 1:
		i := httptrace.GotConnInfo{Reused: r.Intn(2) == 0, WasIdle: r.Intn(2) == 0, IdleTime: time.Duration(r.Intn(2)*r.Intn(5000)) * time.Millisecond}
		if ct.GotConn != nil {
			ct.GotConn(i)
		}
		return one("GotConn", fmt.Sprint(i.Reused), fmt.Sprint(i.WasIdle), i.IdleTime.String())
	case 2:
		if ct.PutIdleConn != nil {
			ct.PutIdleConn(err)
		}
		return one("PutIdleConn", et(err))
	case 3:
		if ct.GotFirstResponseByte != nil {
			ct.GotFirstResponseByte()
		}
		return one("GotFirstResponseByte")
	case 4:
		if ct.Got100Continue != nil {
			ct.Got100Continue()
		}
		return one("Got100Continue")
	case 5:
		if ct.Got1xxResponse != nil {
			ct.Got1xxResponse(103, nil)
		}
		return one("Got1xxResponse")
	case 6:
		if ct.DNSStart != nil {
			ct.DNSStart(httptrace.DNSStartInfo{Host: host})
		}
		return one("DNSStart", host)
	case 7:
		a := []string{et(err)}
		i := httptrace.DNSDoneInfo{Err: err}
		for k := r.Intn(4); k > 0; k-- {
			x := net.IPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(200)))}
			i.Addrs = append(i.Addrs, x)
			a = append(a, x.String())
		}
		if ct.DNSDone != nil {
			ct.DNSDone(i)
		}
		return one("DNSDone", a...)
	case 8:
		if ct.ConnectStart != nil {
			ct.ConnectStart("tcp4", host)
		}
		return one("ConnectStart", "tcp4", host)
	case 9:
		if ct.ConnectDone != nil {
			ct.ConnectDone("tcp", host, err)
		}
		return one("ConnectDone", "tcp", host, et(err))
	case 10:
		if ct.TLSHandshakeStart != nil {
			ct.TLSHandshakeStart()
		}
		return one("TLSHandshakeStart")
	case 11:
		if ct.TLSHandshakeDone != nil {
			ct.TLSHandshakeDone(tls.ConnectionState{}, err)
		}
		return one("TLSHandshakeDone", et(err))
	case 12:
		if ct.WroteHeaderField != nil {
			ct.WroteHeaderField("k", nil)
		}
		return one("WroteHeaderField")
	case 13:
		if ct.WroteHeaders != nil {
			ct.WroteHeaders()
		}
		return one("WroteHeaders")
	case 14:
		if ct.Wait100Continue != nil {
			ct.Wait100Continue()
		}
		return one("Wait100Continue")
	}
	if ct.WroteRequest != nil {
		ct.WroteRequest(httptrace.WroteRequestInfo{Err: err})
	}
	return one("WroteRequest", et(err))
}

// hooks calls some hooks, in one or two goroutines.
func (h *hreq) hooks(n int) {
	a, b := []M{}, []M{}
	if n > 0 && h.n < 3 && h.r.Intn(4) == 0 { // few, for the sake of the interleavings to look at
		h.n++
		n = 1 + h.r.Intn(2)
		r2 := rand.New(rand.NewSource(h.r.Int63()))
		m := 1 + r2.Intn(2)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; m > 0; m-- {
				b = append(b, h.fire(r2))
			}
		}()
		for ; n > 0; n-- {
			a = append(a, h.fire(h.r))
		}
		wg.Wait()
	}
	for ; n > 0; n-- {
		a = append(a, h.fire(h.r))
	}
	h.w.tr.Call("hooks", M{"id": h.id, "a": a, "b": b})
}

// say is what the caller's hooks do: count, or, on real connections, tell.
func (h *hreq) say(m M) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.nown++
	if !h.live {
		return
	}
	h.told[m["k"].(string)]++
	if h.ended {
		h.w.tr.Call("late", M{"id": h.id, "a": []M{m}})
	} else {
		h.w.tr.Call("hooks", M{"id": h.id, "a": []M{m}, "b": []M{}})
	}
}

func (h *hreq) end() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.ended {
		h.ended = true
		h.w.tr.Call("end", M{"id": h.id})
	}
}

// hkbase stands for the transport below.
type hkbase struct{}

type hkbody struct {
	io.ReadCloser
	h *hreq
}

func (b hkbody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err != nil {
		b.h.end()
	}
	return n, err
}
func (b hkbody) Close() error { b.h.end(); return b.ReadCloser.Close() }

func (hkbase) RoundTrip(q *http.Request) (*http.Response, error) {
	h := q.Context().Value(hreqKey{}).(*hreq)
	if h.live {
		resp, err := h.w.ssrv.Client().Transport.RoundTrip(q)
		if err != nil {
			h.end()
			return resp, err
		}
		resp.Body = hkbody{resp.Body, h}
		return resp, nil
	}
	h.ct = httptrace.ContextClientTrace(q.Context())
	for i := h.r.Intn(4); i > 0; i-- {
		h.hooks(h.r.Intn(5))
	}
	switch h.r.Intn(4) {
	case 0:
		return nil, errors.New("no")
	case 1:
		return &http.Response{StatusCode: 204, Status: "204", Request: q}, nil
	}
	return &http.Response{StatusCode: 200, Status: "200", Request: q, Body: io.NopCloser(strings.NewReader("abc"))}, nil
}

func (h *hreq) send(t *ochttp.Transport, opt int) {
	w := h.w
	path := "/" + h.name
	health := h.r.Intn(8) == 0
	if health {
		path = "/healthz"
	}
	base := "http://hooks.test"
	var rd io.Reader
	if h.live {
		base = w.ssrv.URL
		if h.r.Intn(6) == 0 {
			base = "http://127.0.0.1:1" // nobody there
		}
	}
	if h.r.Intn(2) == 0 {
		rd = strings.NewReader("body")
	}
	ctx := context.WithValue(context.Background(), hreqKey{}, h)
	if h.own {
		ctx = httptrace.WithClientTrace(ctx, h.mine(h.say))
	}
	q, _ := http.NewRequestWithContext(ctx, "POST", base+path, rd)
	if h.live && h.r.Intn(3) == 0 {
		q.Header.Set("Expect", "100-continue")
	}
	h.orig = q
	w.tr.Call("begin", M{"id": h.id, "on": h.on, "health": health, "smp": opt == 1, "own": h.own})
	resp, err := t.RoundTrip(q)
	if err != nil || resp.Body == nil {
		h.end()
	} else {
		for !h.live && h.r.Intn(2) == 0 {
			h.hooks(h.r.Intn(3))
			resp.Body.Read(make([]byte, 0))
		}
		if h.r.Intn(2) == 0 {
			io.Copy(io.Discard, resp.Body)
			h.end()
		}
		h.end()
		resp.Body.Close()
	}
	if !h.live {
		h.hooks(h.r.Intn(3))
	}
}

func (h *hreq) look() {
	w := h.w
	w.mu.Lock()
	ss := w.out["/"+h.name]
	w.mu.Unlock()
	// a hook annotates before the caller's own one tells of it: wait for what is still to be told
	for i := 0; h.live && len(ss) == 1 && i < 400; i++ {
		want := map[string]int{}
		for _, a := range ss[0].Annotations {
			want[a.Message]++
		}
		h.mu.Lock()
		for k, n := range h.told {
			want[k] -= n
		}
		h.mu.Unlock()
		ok := true
		for _, n := range want {
			ok = ok && n <= 0
		}
		if ok {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	h.mu.Lock()
	m := M{"id": h.id, "live": h.live, "own": h.nown, "spans": len(ss), "max": w.max, "span": true, "an": []M{}, "dropped": 0}
	h.mu.Unlock()
	if len(ss) == 1 {
		an := []M{}
		for _, a := range ss[0].Annotations {
			an = append(an, M{"m": a.Message, "attrs": attrs(a.Attributes)})
		}
		m["an"], m["dropped"] = an, ss[0].DroppedAnnotationCount
		for _, s := range h.made {
			if s.SpanContext().SpanID != ss[0].SpanContext.SpanID {
				m["span"] = false
			}
		}
	}
	w.tr.Call("look", m)
}

func TestHooks(t *testing.T) {
	e := vlib.Open(t)
	no := 0
	live := e.Mode == "live"
	srvs := []*httptest.Server{nil, nil}
	if live {
		hd := http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			io.Copy(io.Discard, q.Body)
			io.WriteString(rw, "hello")
		})
		srvs[0], srvs[1] = httptest.NewServer(hd), httptest.NewTLSServer(hd)
		defer srvs[0].Close()
		defer srvs[1].Close()
	}
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		no++
		w := &hkworld{tr: tr, no: no, out: map[string][]*trace.SpanData{}, max: vlib.Pick(r, []int{1, 2, 4, 32, 32})}
		if live {
			w.max = 100
			w.ssrv = srvs[r.Intn(2)]
			if r.Intn(2) == 0 {
				w.ssrv.Client().CloseIdleConnections()
			}
		}
		trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: w.max})
		trace.RegisterExporter(w)
		defer trace.UnregisterExporter(w)
		on, opt := r.Intn(5) > 0, 1+b2i(r.Intn(6) == 0)
		t := &ochttp.Transport{Base: hkbase{}, StartOptions: trace.StartOptions{Sampler: sampler(opt)}}
		mk := vlib.Pick(r, []func(*http.Request, *trace.Span) *httptrace.ClientTrace{ochttp.NewSpanAnnotatingClientTrace, ochttp.NewSpanAnnotator})
		if on {
			t.NewClientTrace = func(q *http.Request, s *trace.Span) *httptrace.ClientTrace {
				h := q.Context().Value(hreqKey{}).(*hreq)
				h.made = append(h.made, s)
				tr.Call("make", M{"id": h.id, "req": q.URL == h.orig.URL && q.Method == "POST" && s != nil})
				return mk(q, s)
			}
		}
		n := 1 + r.Intn(4)
		hs := make([]*hreq, n+1)
		for i := 1; i <= n; i++ {
			hs[i] = &hreq{w: w, id: i, r: rand.New(rand.NewSource(r.Int63())), name: fmt.Sprintf("k%d-%d", no, i), own: live || r.Intn(2) == 0, on: on, live: live, told: map[string]int{}}
		}
		if r.Intn(3) == 0 {
			for i := 1; i <= n; i++ {
				hs[i].send(t, opt)
			}
		} else {
			vlib.Par(tr, n, func(i int) { hs[i].send(t, opt) })
		}
		for i := 1; i <= n; i++ {
			hs[i].look()
		}
	})
}
