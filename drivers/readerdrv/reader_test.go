//go:build go1.25

// Package readerdrv drives the producer manager and the interval readers.
package readerdrv

import (
	"context"
	"encoding/binary"
	"errors"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/trace"
)

type M = vlib.M

type world struct {
	tr    *vlib.Trace
	t0    time.Time
	seq   bool
	reads int64
	prods []*prod
	mu    sync.Mutex
	rdrs  []*rdr
	gen   *spans
}

type rdr struct {
	w  *world
	id int
	ir *metricexport.IntervalReader
	rd *metricexport.Reader
	// how long each export takes
	slow time.Duration
	nap  int
	bad  bool
	name string
}

// spans makes the IDs of spans, such that the reader's sampler takes them all, and hears of their end.
type spans struct {
	w    *world
	n, t uint64
}

func (g *spans) NewTraceID() (t [16]byte) {
	binary.BigEndian.PutUint64(t[8:], atomic.AddUint64(&g.t, 1))
	return t
}

func (g *spans) NewSpanID() (s [8]byte) {
	binary.BigEndian.PutUint64(s[:], atomic.AddUint64(&g.n, 1))
	return s
}

func (g *spans) num(s trace.SpanID) int { return int(binary.BigEndian.Uint64(s[:])) }

func (g *spans) ExportSpan(d *trace.SpanData) {
	g.w.ev("call", 0, "span", M{"s": g.num(d.SpanID), "name": d.Name, "root": d.ParentSpanID == trace.SpanID{} && !d.HasRemoteParent})
}

// prod is a producer; each read returns n metrics, named by the number of the read.
type prod struct {
	w     *world
	id, n int
	// what Read does to the manager meanwhile
	other *prod
	del   bool
}

func (w *world) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (w *world) ev(e string, th int, op string, a M) {
	m := M{"e": e, "th": th, "op": op, "t": w.now()}
	for k, v := range a {
		m[k] = v
	}
	w.tr.Add(m)
}

func (w *world) op(th int, op string, a M, f func() M) {
	w.ev("inv", th, op, a)
	w.ev("ret", th, op, f())
}

func (p *prod) Read() []*metricdata.Metric {
	n := int(atomic.AddInt64(&p.w.reads, 1))
	p.w.ev("call", 0, "pread", M{"p": p.id, "n": n})
	if p.other != nil {
		th := 1000 + n
		if p.del {
			p.w.pdel(th, p.other)
		} else {
			p.w.padd(th, p.other)
		}
	}
	out := []*metricdata.Metric{}
	for i := 1; i <= p.n; i++ {
		out = append(out, &metricdata.Metric{Descriptor: metricdata.Descriptor{Unit: metricdata.UnitBytes},
			TimeSeries: []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(time.Time{}, int64(n)), metricdata.NewInt64Point(time.Time{}, int64(i))}}}})
	}
	return out
}

func (x *rdr) ExportMetrics(ctx context.Context, ms []*metricdata.Metric) error {
	d := [][]int{}
	for _, m := range ms {
		n, i := -1, -1
		if m != nil && len(m.TimeSeries) == 1 && len(m.TimeSeries[0].Points) == 2 {
			n, i = int(m.TimeSeries[0].Points[0].Value.(int64)), int(m.TimeSeries[0].Points[1].Value.(int64))
		}
		d = append(d, []int{n, i})
	}
	sp := 0
	if s := trace.FromContext(ctx); s != nil {
		sp = x.w.gen.num(s.SpanContext().SpanID)
	}
	x.w.ev("call", 0, "exp", M{"r": x.id, "d": d, "sp": sp, "name": x.name})
	for i := 0; i < x.nap; i++ {
		runtime.Gosched()
	}
	if x.slow > 0 {
		time.Sleep(x.slow)
	}
	for i := range ms {
		ms[i] = nil
	}
	x.w.ev("call", 0, "expend", M{"r": x.id})
	if x.bad { // its failures are its own
		return errors.New("export failed")
	}
	return nil
}

func (w *world) padd(th int, p *prod) {
	w.op(th, "padd", M{"p": p.id}, func() M { metricproducer.GlobalManager().AddProducer(p); return nil })
}

func (w *world) pdel(th int, p *prod) {
	w.op(th, "pdel", M{"p": p.id}, func() M { metricproducer.GlobalManager().DeleteProducer(p); return nil })
}

func (w *world) getall(th int) {
	w.op(th, "getall", nil, func() M {
		ps := metricproducer.GlobalManager().GetAll()
		l := []int{}
		for i, p := range ps {
			if q, ok := p.(*prod); ok {
				l = append(l, q.id)
			} else {
				l = append(l, 0)
			}
			ps[i] = nil
		}
		return M{"l": l}
	})
}

func (w *world) newProd(r *rand.Rand) {
	p := &prod{w: w, id: len(w.prods) + 1, n: r.Intn(4)}
	if r.Intn(4) == 0 && len(w.prods) > 0 {
		p.other, p.del = vlib.Pick(r, w.prods), r.Intn(2) == 0
	}
	w.prods = append(w.prods, p)
	w.ev("call", 0, "newprod", M{"p": p.id, "n": p.n})
}

func (w *world) newRdr(th int, r *rand.Rand) {
	x := &rdr{w: w, id: len(w.rdrs) + 1, nap: r.Intn(3), bad: r.Intn(4) == 0}
	if w.seq && r.Intn(3) == 0 {
		x.slow = time.Duration(500*(1+r.Intn(8))) * time.Millisecond
	}
	if r.Intn(2) == 0 {
		x.rd, x.name = metricexport.NewReader(), "ExportMetrics"
	} else {
		x.rd, x.name = metricexport.NewReader(metricexport.WithSpanName("other")), "other"
	}
	w.op(th, "new", M{"r": x.id, "bad": false}, func() M {
		ir, err := metricexport.NewIntervalReader(x.rd, x)
		x.ir = ir
		return M{"err": err != nil || ir == nil}
	})
	w.rdrs = append(w.rdrs, x)
}

func (w *world) newBad(th int, r *rand.Rand) {
	x := &rdr{w: w, id: 99}
	w.op(th, "new", M{"r": 99, "bad": true}, func() M {
		var err error
		var ir *metricexport.IntervalReader
		switch r.Intn(3) {
		case 0:
			ir, err = metricexport.NewIntervalReader(nil, x)
		case 1:
			ir, err = metricexport.NewIntervalReader(metricexport.NewReader(), nil)
		default:
			ir, err = metricexport.NewIntervalReader(nil, nil)
		}
		return M{"err": err != nil && ir == nil}
	})
}

var intervals = []time.Duration{0, time.Second, time.Second, 2 * time.Second, 1500 * time.Millisecond, 3 * time.Second, 2500 * time.Millisecond, 999 * time.Millisecond,
	-time.Second, 61 * time.Second, 1001 * time.Millisecond, time.Millisecond, time.Second}

func (w *world) setint(th int, r *rand.Rand, x *rdr) {
	d := vlib.Pick(r, intervals)
	w.op(th, "setint", M{"r": x.id, "d": int(d / time.Millisecond)}, func() M { x.ir.ReportingInterval = d; return nil })
}

var null *metricexport.IntervalReader

func id(x *rdr) int {
	if x == nil {
		return 0
	}
	return x.id
}

func obj(x *rdr) *metricexport.IntervalReader {
	if x == nil {
		return null
	}
	return x.ir
}

func (w *world) start(th int, x *rdr) {
	w.op(th, "start", M{"r": id(x)}, func() M { return M{"err": obj(x).Start() != nil} })
}

func (w *world) stop(th int, x *rdr) {
	w.op(th, "stop", M{"r": id(x)}, func() M { obj(x).Stop(); return nil })
}

func (w *world) flush(th int, x *rdr) {
	w.op(th, "flush", M{"r": id(x)}, func() M { obj(x).Flush(); return nil })
}

func (w *world) rae(th int, x *rdr) {
	w.op(th, "rae", M{"r": id(x)}, func() M { x.rd.ReadAndExport(x); return nil })
}

func (w *world) step(th int, r *rand.Rand, conc bool) {
	x := vlib.Pick(r, w.rdrs)
	if r.Intn(25) == 0 {
		x = nil
	}
	switch k := r.Intn(24); {
	case k < 5:
		w.start(th, x)
	case k < 8:
		w.stop(th, x)
	case k < 11:
		w.flush(th, x)
	case k < 12:
		if x != nil {
			w.rae(th, x)
		}
	case k < 14:
		w.padd(th, vlib.Pick(r, w.prods))
	case k < 16:
		w.pdel(th, vlib.Pick(r, w.prods))
	case k < 17:
		w.getall(th)
	case k < 18:
		metricproducer.GlobalManager().AddProducer(nil)
		metricproducer.GlobalManager().DeleteProducer(nil)
	case k < 19:
		w.newBad(th, r)
	default:
		if conc {
			if r.Intn(2) == 0 {
				runtime.Gosched()
			}
			return
		}
		if x != nil && k == 19 {
			w.setint(th, r, x)
			return
		}
		d := time.Duration(500*(1+r.Intn(8))) * time.Millisecond
		switch r.Intn(16) {
		case 0:
			d = 60 * time.Second
		case 1:
			d = time.Millisecond
		case 2:
			d = 121 * time.Second
		}
		time.Sleep(d)
		if r.Intn(3) > 0 {
			synctest.Wait()
		}
	}
}

func body(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	w := &world{tr: tr, t0: time.Now(), seq: e.Mode == "seq"}
	w.gen = &spans{w: w}
	trace.ApplyConfig(trace.Config{IDGenerator: w.gen})
	trace.RegisterExporter(w.gen)
	defer trace.UnregisterExporter(w.gen)
	for _, p := range metricproducer.GlobalManager().GetAll() {
		metricproducer.GlobalManager().DeleteProducer(p)
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		w.newProd(r)
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		w.newRdr(1, r)
	}
	for _, p := range w.prods {
		if r.Intn(3) > 0 {
			w.padd(1, p)
		}
	}
	for _, x := range w.rdrs {
		if r.Intn(4) > 0 {
			w.setint(1, r, x)
		}
		if r.Intn(2) > 0 {
			w.start(1, x)
		}
	}
	tr.Guard(1, func() {
		for ph := 1 + r.Intn(2); ph > 0; ph-- {
			for i := 4 + r.Intn(12); i > 0; i-- {
				w.step(1, r, false)
			}
			if !w.seq {
				// at the moment of a tick, if a reader runs
				time.Sleep(time.Second)
				n, cnt := 2+r.Intn(2), 2+r.Intn(3)
				rs := make([]*rand.Rand, n+1)
				for i := range rs {
					rs[i] = rand.New(rand.NewSource(r.Int63()))
				}
				vlib.Par(tr, n, func(th int) {
					for i := 0; i < cnt; i++ {
						w.step(th, rs[th], true)
					}
				})
				synctest.Wait()
			}
		}
		for _, x := range w.rdrs {
			w.stop(1, x)
		}
		time.Sleep(62 * time.Second)
		synctest.Wait()
		w.getall(1)
		w.ev("call", 1, "end", nil)
	})
}

// TestReader records readers and producers.
func TestReader(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(t, func(*testing.T) { body(e, r, tr) })
	})
}
