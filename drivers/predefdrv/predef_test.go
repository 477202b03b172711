//go:build go1.25

// Package predefdrv makes requests through the plugins and reads their predefined views.
package predefdrv

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type M = vlib.M

var all = []*view.View{
	ocgrpc.ClientSentBytesPerRPCView, ocgrpc.ClientReceivedBytesPerRPCView, ocgrpc.ClientRoundtripLatencyView, ocgrpc.ClientCompletedRPCsView,
	ocgrpc.ClientStartedRPCsView, ocgrpc.ClientSentMessagesPerRPCView, ocgrpc.ClientReceivedMessagesPerRPCView, ocgrpc.ClientServerLatencyView,
	ocgrpc.ServerSentBytesPerRPCView, ocgrpc.ServerReceivedBytesPerRPCView, ocgrpc.ServerLatencyView, ocgrpc.ServerCompletedRPCsView,
	ocgrpc.ServerStartedRPCsView, ocgrpc.ServerReceivedMessagesPerRPCView, ocgrpc.ServerSentMessagesPerRPCView,
	ochttp.ClientSentBytesDistribution, ochttp.ClientReceivedBytesDistribution, ochttp.ClientRoundtripLatencyDistribution, ochttp.ClientCompletedCount,
	ochttp.ClientRequestCountView, ochttp.ClientRequestBytesView, ochttp.ClientResponseBytesView, ochttp.ClientLatencyView,
	ochttp.ClientRequestCountByMethod, ochttp.ClientResponseCountByStatusCode,
	ochttp.ServerRequestCountView, ochttp.ServerRequestBytesView, ochttp.ServerResponseBytesView, ochttp.ServerLatencyView,
	ochttp.ServerRequestCountByMethod, ochttp.ServerResponseCountByStatusCode,
}
var groups = map[string][]*view.View{"gc": ocgrpc.DefaultClientViews, "gs": ocgrpc.DefaultServerViews, "hc": ochttp.DefaultClientViews, "hs": ochttp.DefaultServerViews}

func pr(x int64) []int64 {
	if x < 0 {
		return []int64{-1, x}
	}
	return []int64{x / 1024, x % 1024}
}
func near(f float64) int64 {
	if f < 0 {
		return int64(f - 0.5)
	}
	return int64(f + 0.5)
}
func names(vs []*view.View) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.Name)
	}
	return out
}

type body struct {
	n    int64 // still to read
	wait time.Duration
}

func (b *body) Read(p []byte) (int, error) {
	time.Sleep(b.wait)
	b.wait = 0
	if b.n == 0 {
		return 0, io.EOF
	}
	k := int64(len(p))
	if k > b.n {
		k = b.n
	}
	b.n -= k
	return int(k), nil
}
func (b *body) Close() error { return nil }

type sink http.Header

func (s sink) Header() http.Header         { return http.Header(s) }
func (s sink) Write(b []byte) (int, error) { return len(b), nil }
func (s sink) WriteHeader(int)             {}

type base func(*http.Request) (*http.Response, error)

func (f base) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

var sizes = []int64{0, 0, 1, 2, 100, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 16384, 65535, 65536}
var huge = []int64{262143, 262144, 1048576, 4194303, 4194304, 16777216, 67108864, 268435455, 268435456, 1073741823, 1073741824, 4294967295, 4294967296, 5000000000}
var durs = []int64{1, 9, 10, 11, 50, 100, 299, 300, 600, 800, 999, 1000, 1001, 2000, 3000, 4000, 5000, 6000, 8000, 9000, 10000, 12999, 13000, 16000, 20000, 25000, 30000, 40000, 50000,
	65000, 80000, 100000, 130000, 160000, 200000, 250000, 300000, 400000, 500000, 650000, 800000, 999999, 1000000, 2000000, 5000000, 10000000, 20000000, 50000000, 99999999, 100000000, 123456789}

func size(r *rand.Rand) int64 {
	if r.Intn(3) == 0 {
		return vlib.Pick(r, huge)
	}
	return vlib.Pick(r, sizes)
}

type world struct {
	tr  *vlib.Trace
	ask chan func()
	did chan bool
	reg map[string]bool
	ids int
}

// outside runs f out of the bubble: the view worker answers on f's channels.
func (w *world) outside(f func()) { w.ask <- f; <-w.did }

func (w *world) read() {
	out := []M{}
	w.outside(func() {
		for _, v := range all {
			rows, err := view.RetrieveData(v.Name)
			if err != nil {
				if w.reg[v.Name] {
					out = append(out, M{"v": v.Name, "rows": []M{}, "err": err.Error()})
				}
				continue
			}
			rs := []M{}
			for _, row := range rows {
				t := [][]string{}
				for _, x := range row.Tags {
					t = append(t, []string{x.Key.Name(), x.Value})
				}
				m := M{"t": t, "agg": "?", "n": -1, "nb": 0}
				switch x := row.Data.(type) {
				case *view.CountData:
					m["agg"], m["n"] = "count", x.Value
				case *view.DistributionData:
					k := 1.0
					if v.Measure.Unit() == "ms" {
						k = 1000 // microseconds
					}
					b := [][]int64{}
					for i, c := range x.CountPerBucket {
						if c != 0 {
							b = append(b, []int64{int64(i), c})
						}
					}
					m["agg"], m["n"], m["sum"], m["min"], m["max"], m["b"], m["nb"] = "dist", x.Count, pr(near(x.Sum()*k)), pr(near(x.Min*k)), pr(near(x.Max*k)), b, len(x.CountPerBucket)
				}
				rs = append(rs, m)
			}
			out = append(out, M{"v": v.Name, "rows": rs})
		}
	})
	w.tr.Call("read", M{"views": out})
}

func (w *world) register(r *rand.Rand, on bool) {
	vs := []*view.View{}
	for _, i := range r.Perm(len(all))[:1+r.Intn(8)] {
		vs = append(vs, all[i])
	}
	g := ""
	if r.Intn(3) == 0 {
		g = vlib.Pick(r, []string{"gc", "gs", "hc", "hs"})
		vs = groups[g]
	}
	var err error
	w.outside(func() {
		if on {
			err = view.Register(vs...)
		} else {
			view.Unregister(vs...)
		}
		for _, v := range vs {
			w.reg[v.Name] = on
		}
	})
	switch {
	case !on:
		w.tr.Call("unregister", M{"vs": names(vs)})
	case g != "":
		w.tr.Call("group", M{"g": g, "vs": names(vs), "ok": err == nil})
	default:
		w.tr.Call("register", M{"vs": names(vs), "ok": err == nil})
	}
}

func (w *world) begin(kind, meth string) int {
	w.ids++
	w.tr.Call("begin", M{"id": w.ids, "kind": kind, "meth": meth})
	return w.ids
}

func (w *world) end(id int, st int, sent, recv, dur int64, sn, rn int, body bool) {
	w.tr.Call("end", M{"id": id, "st": st, "sent": pr(sent), "recv": pr(recv), "dur": pr(dur), "sn": sn, "rn": rn, "body": body})
}

// sleep cuts d microseconds into pieces
func parts(r *rand.Rand, d int64, n int) []time.Duration {
	out := make([]time.Duration, n)
	for i := range out {
		p := d
		if i < n-1 {
			p = r.Int63n(d + 1)
		}
		out[i] = time.Duration(p) * time.Microsecond
		d -= p
	}
	return out
}

var paths = []string{"/", "/a", "/x/y", "", "/caf\u00e9", "/\x01", "/" + strings.Repeat("l", 300)}
var methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PURGE"}
var statuses = []int{200, 200, 201, 204, 301, 304, 400, 404, 500, 503, 599, 999}

func (w *world) url(r *rand.Rand) *url.URL {
	return &url.URL{Scheme: "http", Host: vlib.Pick(r, []string{"h", "h:80", "example.com", ""}), Path: vlib.Pick(r, paths)}
}

func (w *world) httpServer(r *rand.Rand) {
	meth, st, dur := vlib.Pick(r, methods), vlib.Pick(r, statuses), vlib.Pick(r, durs)
	req := (&http.Request{Method: meth, URL: w.url(r), Header: http.Header{}, Proto: "HTTP/1.1"}).WithContext(ctx(r))
	req.Host = req.URL.Host
	recv, hasBody := int64(0), r.Intn(2) == 0
	if hasBody {
		req.Body = &body{}
		req.ContentLength = vlib.Pick(r, []int64{-1, 0, size(r), size(r)})
		if req.ContentLength > 0 {
			recv = req.ContentLength
		}
	} else if r.Intn(2) == 0 {
		req.Body = http.NoBody
	}
	ps := parts(r, dur, 2)
	ws := []int64{}
	sent := int64(0)
	for i := r.Intn(4); i > 0; i-- {
		n := vlib.Pick(r, sizes)
		ws = append(ws, n)
		sent += n
	}
	explicit := r.Intn(3) > 0 || st != 200
	route := vlib.Pick(r, []string{"", "", "r", "/caf\u00e9", strings.Repeat("r", 256)})
	id := w.begin("hs", meth)
	h := http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
		time.Sleep(ps[0])
		if explicit {
			rw.WriteHeader(st)
		}
		if route != "" {
			ochttp.SetRoute(rq.Context(), route)
		}
		for _, n := range ws {
			rw.Write(make([]byte, n))
		}
		time.Sleep(ps[1])
		w.end(id, st, sent, recv, dur, 0, 0, hasBody)
	})
	var hh http.Handler = h
	if route != "" && len(route)%2 == 0 {
		hh = ochttp.WithRouteTag(h, route)
	}
	(&ochttp.Handler{Handler: hh}).ServeHTTP(sink{}, req)
}

func (w *world) httpClient(r *rand.Rand) {
	meth, st, dur := vlib.Pick(r, methods), vlib.Pick(r, statuses), vlib.Pick(r, durs)
	ps := parts(r, dur, 2)
	req := (&http.Request{Method: meth, URL: w.url(r), Header: http.Header{}, Proto: "HTTP/1.1"}).WithContext(ctx(r))
	req.Host = req.URL.Host
	sent, recv, n := int64(0), int64(0), int64(0)
	if r.Intn(2) == 0 {
		req.Body = &body{}
		req.ContentLength = vlib.Pick(r, []int64{-1, 0, size(r), size(r)})
		if req.ContentLength > 0 {
			sent = req.ContentLength
		}
	}
	resp := &http.Response{StatusCode: st, Status: fmt.Sprint(st), Header: http.Header{}, ContentLength: -1, Body: http.NoBody}
	read := r.Intn(4) > 0
	switch q := r.Intn(6); {
	case q < 3:
		n = vlib.Pick(r, sizes)
		if r.Intn(2) == 0 {
			resp.ContentLength = n
		}
		resp.Body = &body{n: n, wait: ps[1]}
	case q < 4:
		// announced and not read
		resp.ContentLength = size(r)
		resp.Body = &body{n: 0, wait: ps[1]}
		recv, read = resp.ContentLength, false
		if meth == "HEAD" {
			recv = 0
		}
	default:
		resp.Body = &body{n: 0, wait: ps[1]}
	}
	if read {
		recv = n
	} else if n > 0 {
		recv = 0
		if resp.ContentLength > 0 && meth != "HEAD" {
			recv = resp.ContentLength
		}
	}
	own, _ := resp.Body.(*body)
	fail := r.Intn(6) == 0
	if fail {
		st, recv, dur = 500, 0, int64(ps[0]/time.Microsecond)
	} else if !read {
		dur = int64(ps[0] / time.Microsecond)
	}
	id := w.begin("hc", meth)
	resp2, err := (&ochttp.Transport{Base: base(func(*http.Request) (*http.Response, error) {
		time.Sleep(ps[0])
		if fail {
			w.end(id, st, sent, recv, dur, 0, 0, false)
			return nil, errors.New("no")
		}
		return resp, nil
	})}).RoundTrip(req)
	if err != nil {
		return
	}
	if read {
		b := make([]byte, 100000)
		// the last read blocks for a moment before the end; log first, the caller looks when all wait
		for got := int64(0); ; {
			if got == n {
				time.Sleep(own.left())
				w.end(id, st, sent, recv, dur, 0, 0, false)
				resp2.Body.Read(b)
				break
			}
			k, _ := resp2.Body.Read(b)
			got += int64(k)
		}
	} else {
		w.end(id, st, sent, recv, dur, 0, 0, false)
	}
	resp2.Body.Close()
}

func ctx(r *rand.Rand) context.Context {
	c := context.Background()
	if r.Intn(3) == 0 {
		// the caller's tags, some under the keys of the plugins
		c, _ = tag.New(c, tag.Upsert(vlib.Pick(r, []tag.Key{tag.MustNewKey("u"), ocgrpc.KeyClientMethod, ocgrpc.KeyServerStatus, ocgrpc.KeyClientStatus, ochttp.Method, ochttp.StatusCode, ochttp.KeyClientStatus}), "mine"))
	}
	return c
}

func (w *world) grpc(r *rand.Rand, client bool) {
	meth := vlib.Pick(r, []string{"p.S/A", "p.S/B", "x", "p.T/long" + strings.Repeat("x", 200)})
	kind := "gs"
	if client {
		kind = "gc"
	}
	info := &stats.RPCTagInfo{FullMethodName: "/" + meth}
	var h stats.Handler = &ocgrpc.ServerHandler{}
	if client {
		h = &ocgrpc.ClientHandler{}
	}
	dur := vlib.Pick(r, durs)
	ps := parts(r, dur, 3)
	id := w.begin(kind, meth)
	c := h.TagRPC(ctx(r), info)
	h.HandleRPC(c, &stats.Begin{Client: client})
	time.Sleep(ps[0])
	var sent, recv int64
	sn, rn := 0, 0
	msgs := vlib.Pick(r, []int{0, 1, 2, 3, 5, 9, 33})
	for i := 0; i < msgs; i++ {
		n := vlib.Pick(r, sizes)
		if msgs < 4 {
			n = size(r)
		}
		if r.Intn(2) == 0 {
			h.HandleRPC(c, &stats.InPayload{Client: client, Length: int(n), WireLength: 7})
			recv, rn = recv+n, rn+1
		} else {
			h.HandleRPC(c, &stats.OutPayload{Client: client, Length: int(n), WireLength: 7})
			sent, sn = sent+n, sn+1
		}
		if i == 1 {
			time.Sleep(ps[1])
			ps[1] = 0
		}
	}
	time.Sleep(ps[1])
	time.Sleep(ps[2])
	code := vlib.Pick(r, []int{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
	w.end(id, code, sent, recv, dur, sn, rn, false)
	e := &stats.End{Client: client}
	if code != 0 {
		e.Error = status.Error(codes.Code(code), "m")
	}
	h.HandleRPC(c, e)
}

func (b *body) left() time.Duration { d := b.wait; b.wait = 0; return d }

func TestPredef(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := &world{tr: tr, ask: make(chan func()), did: make(chan bool), reg: map[string]bool{}}
		go func() {
			for f := range w.ask {
				f()
				w.did <- true
			}
		}()
		defer func() { w.outside(func() { view.Unregister(all...) }); close(w.ask) }()
		synctest.Test(t, func(*testing.T) {
			for k := 8 + r.Intn(20); k > 0; k-- {
				switch q := r.Intn(12); {
				case q < 3 || k > 20:
					w.register(r, true)
				case q < 4:
					w.register(r, false)
				case q < 9:
					rr := rand.New(rand.NewSource(r.Int63()))
					go func() {
						switch rr.Intn(4) {
						case 0:
							w.httpServer(rr)
						case 1:
							w.httpClient(rr)
						case 2:
							w.grpc(rr, true)
						default:
							w.grpc(rr, false)
						}
					}()
				case q < 11:
					time.Sleep(time.Duration(vlib.Pick(r, durs)) * time.Microsecond)
				default:
					w.read()
				}
				synctest.Wait()
			}
			time.Sleep(300 * time.Second)
			synctest.Wait()
			w.read()
		})
	})
}
