//go:build go1.25

// Package measdrv drives measures of package stats.
package measdrv

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

type M = vlib.M

var traceNo int64

type handle struct {
	n int
	i *stats.Int64Measure
	f *stats.Float64Measure
}

func (h *handle) measure() stats.Measure {
	if h.i != nil {
		return h.i
	}
	return h.f
}

type world struct {
	tr *vlib.Trace
	no int64
	m  view.Meter // nil: the default meter
	mu sync.Mutex
	hs []*handle
	vs []*view.View
}

func (w *world) name(n int) string { return fmt.Sprintf("meas%d.%d", n, w.no) }

func (w *world) desc(h *handle) (bool, []string) {
	m := h.measure()
	return m.Name() == w.name(h.n), []string{m.Description(), m.Unit()}
}

func (w *world) op(th int, op string, a M, f func() M) {
	w.tr.Inv(th, op, a)
	w.tr.Ret(th, op, f())
}

func (w *world) mk(th int, r *rand.Rand) *handle {
	h := &handle{n: 1 + r.Intn(3)}
	d, u := fmt.Sprintf("d%d", r.Intn(4)), []string{"1", "ms", "By", ""}[r.Intn(4)]
	fl := r.Intn(2) == 0
	w.op(th, "make", M{"n": h.n, "d": []string{d, u}}, func() M {
		if fl {
			h.f = stats.Float64(w.name(h.n), d, u)
		} else {
			h.i = stats.Int64(w.name(h.n), d, u)
		}
		ok, x := w.desc(h)
		return M{"nm": ok, "d": x}
	})
	w.mu.Lock()
	w.hs = append(w.hs, h)
	w.mu.Unlock()
	return h
}

func (w *world) pick(r *rand.Rand) *handle {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.hs) == 0 {
		return nil
	}
	return w.hs[r.Intn(len(w.hs))]
}

func (w *world) step(th int, r *rand.Rand) {
	h := w.pick(r)
	k := r.Intn(10)
	if h == nil || k < 3 {
		w.mk(th, r)
		return
	}
	switch {
	case k < 5:
		v := &view.View{Name: fmt.Sprintf("%s.%d.%d", w.name(h.n), h.n, r.Intn(2)), Measure: h.measure(), Aggregation: view.Distribution(2)}
		// a view of the same name made for another handle of the measure is an equal view
		v.Name = w.name(h.n) + ".view"
		w.op(th, "reg", M{"n": h.n}, func() M {
			if w.m == nil {
				err := view.Register(v)
				if err == nil {
					w.mu.Lock()
					w.vs = append(w.vs, v)
					w.mu.Unlock()
				}
				return M{"err": err != nil}
			}
			return M{"err": w.m.Register(v) != nil}
		})
	case k < 8:
		n := 1 + r.Intn(3)
		api := r.Intn(2)
		w.op(th, "rec", M{"n": h.n, "k": n}, func() M {
			var ms []stats.Measurement
			for i := 0; i < n; i++ {
				x := h
				if h.i != nil {
					ms = append(ms, x.i.M(3))
				} else {
					ms = append(ms, x.f.M(3))
				}
			}
			switch {
			case w.m != nil:
				stats.RecordWithOptions(context.Background(), stats.WithMeasurements(ms...), stats.WithRecorder(w.m))
			case api == 0:
				stats.Record(context.Background(), ms...)
			default:
				stats.RecordWithTags(context.Background(), nil, ms...)
			}
			return nil
		})
	case k < 9:
		ok, d := w.desc(h)
		w.tr.Call("look", M{"n": h.n, "nm": ok, "d": d})
	default:
		w.get(th, h.n)
	}
}

func (w *world) get(th, n int) {
	w.op(th, "get", M{"n": n}, func() M {
		var rows []*view.Row
		var err error
		if w.m == nil {
			rows, err = view.RetrieveData(w.name(n) + ".view")
		} else {
			rows, err = w.m.RetrieveData(w.name(n) + ".view")
		}
		c, s := 0, 0
		for _, r := range rows {
			d := r.Data.(*view.DistributionData)
			c += int(d.Count)
			s += int(d.Sum())
		}
		return M{"err": err != nil, "c": c, "s": s}
	})
}

func body(r *rand.Rand, tr *vlib.Trace, seq bool) {
	w := &world{tr: tr, no: atomic.AddInt64(&traceNo, 1)}
	if r.Intn(2) == 0 {
		w.m = view.NewMeter()
		w.m.Start()
		defer w.m.Stop()
	}
	k := 2 + r.Intn(2)
	rs := make([]*rand.Rand, k+1)
	for i := range rs {
		rs[i] = rand.New(rand.NewSource(r.Int63()))
	}
	for i := r.Intn(4); i > 0; i-- {
		w.step(0, r)
	}
	if !seq {
		cnt := 3 + r.Intn(4)
		vlib.Par(tr, k, func(th int) {
			for i := 0; i < cnt; i++ {
				w.step(th, rs[th])
			}
		})
	}
	tr.Guard(0, func() {
		for i := 4 + r.Intn(10); i > 0; i-- {
			w.step(0, r)
		}
		for _, h := range w.hs {
			ok, d := w.desc(h)
			w.tr.Call("look", M{"n": h.n, "nm": ok, "d": d})
		}
		for n := 1; n <= 3; n++ {
			w.get(0, n)
		}
	})
	view.Unregister(w.vs...)
}

func TestMeas(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { body(r, tr, e.Mode == "seq") })
}
