//go:build go1.25

package tracedrv

import (
	"context"
	"fmt"
	"math/rand"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
)

type storeAPI interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
}

var ticks = []int{1, 2, 9, 10, 11, 90, 99, 100, 101, 900, 999, 1000, 1001, 9000, 9999, 10000, 90000, 99999, 100000, 100001,
	500000, 900000, 999999, 1000000, 1000000, 1000001, 1000000, 2000000, 9000000, 10000000, 10000001, 50000000, 60000000, 60000001}

// TestStore: C06. Mode "seq": long single-threaded histories in virtual time;
// otherwise phases of 2-3 concurrent threads.
func TestStore(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(e.T, func(*testing.T) { storeRun(e, r, tr) })
	})
}

func storeRun(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	api := internal.Trace.(storeAPI)
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	nn := 1 + r.Intn(3)
	names := []string{}
	for i := 0; i < nn; i++ {
		names = append(names, fmt.Sprintf("s%d.%d.%d", e.Seed, tr.ID, i))
	}
	short := func(n string) string { return n[len(n)-1:] }
	ids := map[trace.SpanID]int{}
	type sp struct {
		s  *trace.Span
		id int
	}
	spans := []sp{}
	// span IDs are turned into span numbers when the trace is complete
	list := func(ds []*trace.SpanData) []trace.SpanID {
		out := []trace.SpanID{}
		for _, d := range ds {
			out = append(out, d.SpanID)
		}
		return out
	}
	defer func() {
		for _, ev := range tr.Ev {
			if l, ok := ev["r"].([]trace.SpanID); ok {
				out := []int{}
				for _, x := range l {
					id, ok := ids[x]
					if !ok {
						id = 999
					}
					out = append(out, id)
				}
				ev["r"] = out
			}
		}
	}()
	us := func(d time.Duration) int { return int(d / time.Microsecond) }
	sum := func(th int) {
		ns := []string{}
		for _, n := range names {
			ns = append(ns, short(n))
		}
		tr.Inv(th, "sum", vlib.M{"names": ns})
		m := api.ReportSpansPerMethod()
		rs := []vlib.M{}
		for _, n := range names {
			p, ok := m[n]
			x := vlib.M{"n": short(n), "present": ok, "active": p.Active}
			lat, errs := []int{}, [][]int{}
			for _, b := range p.LatencyBuckets {
				lat = append(lat, b.Size)
			}
			for _, b := range p.ErrorBuckets {
				errs = append(errs, []int{int(b.ErrorCode), b.Size})
			}
			x["lat"], x["err"] = lat, errs
			rs = append(rs, x)
		}
		tr.Ret(th, "sum", vlib.M{"r": rs})
	}
	// spans may end a hair before the next microsecond
	hair := time.Duration(0)
	if e.Mode == "seq" {
		hair = vlib.Pick(r, []time.Duration{0, 1, 500, 999, 999})
	}
	query := func(r *rand.Rand, th int) {
		n := vlib.Pick(r, names)
		switch r.Intn(4) {
		case 0:
			tr.Inv(th, "qactive", vlib.M{"n": short(n)})
			ds := api.ReportActiveSpans(n)
			tr.Ret(th, "qactive", vlib.M{"r": list(ds)})
		case 1:
			c := vlib.Pick(r, []int{0, 0, 1, 2, 5, -3, 99, 16, 17, 100000})
			tr.Inv(th, "qerr", vlib.M{"n": short(n), "c": c})
			ds := api.ReportSpansByError(n, int32(c))
			tr.Ret(th, "qerr", vlib.M{"r": list(ds)})
		case 2:
			b := []int{0, 0, 0, 9, 10, 11, 99, 100, 101, 1000, 10000, 100000, 999999, 1000000, 1000001, 10000000, 60000000, 60000001}
			lo, hi := vlib.Pick(r, b), vlib.Pick(r, b)
			if r.Intn(4) > 0 && hi != 0 && lo > hi {
				lo, hi = hi, lo
			}
			if r.Intn(3) == 0 {
				// exactly the latency of something stored
				if ds := api.ReportSpansByLatency(n, 0, 0); len(ds) > 0 {
					d := vlib.Pick(r, ds)
					x := us(d.EndTime.Sub(d.StartTime))
					switch r.Intn(3) {
					case 0:
						lo, hi = x, x
					case 1:
						lo, hi = x, 0
					default:
						lo, hi = 0, x
					}
				}
			}
			tr.Inv(th, "qlat", vlib.M{"n": short(n), "lo": lo, "hi": hi})
			max := time.Duration(hi) * time.Microsecond
			if hi != 0 {
				max += hair // the model counts whole microseconds
			}
			ds := api.ReportSpansByLatency(n, time.Duration(lo)*time.Microsecond, max)
			tr.Ret(th, "qlat", vlib.M{"r": list(ds)})
		default:
			sum(th)
		}
	}
	start := func(r *rand.Rand, th int, id int) sp {
		n := vlib.Pick(r, names)
		sam := trace.NeverSample()
		if r.Intn(2) == 0 {
			sam = trace.AlwaysSample()
		}
		tr.Inv(th, "start", vlib.M{"s": id, "n": short(n)})
		var s *trace.Span
		os := []trace.StartOption{trace.WithSampler(sam), trace.WithSpanKind(r.Intn(3))}
		if r.Intn(3) == 0 {
			_, s = trace.StartSpanWithRemoteParent(context.Background(), n, trace.SpanContext{TraceID: trace.TraceID{7}, SpanID: trace.SpanID{7}, TraceOptions: trace.TraceOptions(r.Intn(2))}, os...)
		} else {
			_, s = trace.StartSpan(context.Background(), n, os...)
		}
		tr.Ret(th, "start", nil)
		if r.Intn(6) == 0 {
			s.SetName(vlib.Pick(r, append([]string{"renamed", ""}, names...)))
		}
		return sp{s, id}
	}
	total := 0
	end := func(th int, x sp) {
		time.Sleep(hair)
		tr.Inv(th, "end", vlib.M{"s": x.id})
		x.s.End()
		tr.Ret(th, "end", nil)
		if hair > 0 {
			time.Sleep(time.Microsecond - hair)
			total++
			tr.Call("tick", vlib.M{"d": 1})
		}
	}
	setcode := func(r *rand.Rand, th int, x sp) {
		if !x.s.IsRecordingEvents() {
			return
		}
		c := vlib.Pick(r, []int{0, 1, 2, 5, 5, -3, 16, 17, 99, 100000})
		tr.Inv(th, "setcode", vlib.M{"s": x.id, "c": c})
		x.s.SetStatus(trace.Status{Code: int32(c)})
		tr.Ret(th, "setcode", nil)
	}
	conf := func(r *rand.Rand, th int) {
		n := vlib.Pick(r, names)
		cs := []int{0, 1, 1, 2, 2, 3, 4, 10, -1, -100, 100001}
		lc, ec := vlib.Pick(r, cs), vlib.Pick(r, cs)
		if (lc > 10 || ec > 10) && r.Intn(10) > 0 {
			lc, ec = 5, 5
		}
		tr.Inv(th, "conf", vlib.M{"n": short(n), "lc": lc, "ec": ec})
		api.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: n, MaxRequestsSucceeded: lc, MaxRequestsErrors: ec}})
		tr.Ret(th, "conf", nil)
	}
	tick := func(d int) {
		if total+d > 1900000000 {
			d = 1
		}
		total += d
		time.Sleep(time.Duration(d) * time.Microsecond)
		tr.Call("tick", vlib.M{"d": d})
	}
	if e.Mode == "seq" {
		// a working set of latencies makes buckets fill up and rotate
		ts := []int{vlib.Pick(r, ticks), vlib.Pick(r, ticks), 1000000, 1000000}
		nops := 30 + r.Intn(60)
		for k := 0; k < nops; k++ {
			switch q := r.Intn(40); {
			case q < 7:
				x := start(r, 1, len(spans)+1)
				ids[x.s.SpanContext().SpanID] = x.id
				spans = append(spans, x)
			case q < 14:
				if len(spans) > 0 {
					end(1, spans[len(spans)-1-r.Intn(min(len(spans), 4))])
				}
			case q < 17:
				if len(spans) > 0 {
					setcode(r, 1, spans[len(spans)-1-r.Intn(min(len(spans), 4))])
				}
			case q < 19:
				conf(r, 1)
			case q < 20:
				b := r.Intn(3) > 0
				internal.LocalSpanStoreEnabled = b
				tr.Call("enable", vlib.M{"b": b})
			case q < 31:
				if r.Intn(3) == 0 {
					tick(vlib.Pick(r, ticks))
				} else {
					tick(vlib.Pick(r, ts))
				}
			default:
				query(r, 1)
			}
		}
		for i := 0; i < 8; i++ {
			query(r, 1)
		}
		sum(1)
		if p, ok := api.ReportSpansPerMethod()[names[0]]; ok {
			b := []int{}
			for i, l := range p.LatencyBuckets {
				if i+1 < len(p.LatencyBuckets) {
					b = append(b, us(l.MaxLatency))
					if p.LatencyBuckets[i+1].MinLatency != l.MaxLatency || l.MinLatency > l.MaxLatency {
						b = append(b, -1)
					}
				} else if l.MaxLatency != 1<<63-1 {
					b = append(b, -2)
				}
			}
			if len(p.LatencyBuckets) == 0 || p.LatencyBuckets[0].MinLatency != 0 {
				b = append(b, -3)
			}
			tr.Call("bounds", vlib.M{"b": b})
		}
		return
	}
	if r.Intn(2) == 0 {
		conf(r, 1)
	}
	var nid atomic.Int64
	for ph := 0; ph < 2+r.Intn(3); ph++ {
		for k := r.Intn(3); k > 0; k-- {
			x := start(r, 1, int(nid.Add(1)))
			ids[x.s.SpanContext().SpanID] = x.id
			spans = append(spans, x)
		}
		tick(vlib.Pick(r, []int{5, 50, 1000000, 1000000, 1000001}))
		nth := 2 + r.Intn(2)
		seeds := make([]int64, nth+1)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		old := append([]sp{}, spans...)
		fresh := make([][]sp, nth+1)
		vlib.Par(tr, nth, func(th int) {
			r := rand.New(rand.NewSource(seeds[th]))
			for k := 0; k < 3; k++ {
				switch q := r.Intn(12); {
				case q < 2:
					fresh[th] = append(fresh[th], start(r, th, int(nid.Add(1))))
				case q < 7:
					if len(old) > 0 {
						end(th, old[len(old)-1-r.Intn(min(len(old), 3))])
					}
				case q < 9:
					if len(old) > 0 {
						setcode(r, th, old[len(old)-1-r.Intn(min(len(old), 3))])
					}
				case q < 10:
					conf(r, th)
				default:
					query(r, th)
				}
			}
		})
		for _, f := range fresh {
			for _, x := range f {
				ids[x.s.SpanContext().SpanID] = x.id
				spans = append(spans, x)
			}
		}
		sum(1)
		query(r, 1)
		query(r, 1)
	}
}
