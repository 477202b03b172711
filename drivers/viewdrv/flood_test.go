//go:build go1.25

package viewdrv

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// gated is an exporter that returns when it is let through.
type gated struct {
	exporter
	gate chan struct{}
	n    int64
	hold int64
}

func (g *gated) ExportView(d *view.Data) {
	n := atomic.AddInt64(&g.n, 1)
	if n <= 30 {
		g.exporter.ExportView(d)
	}
	if n <= g.hold {
		<-g.gate
	}
}

// flood: many more record calls than the meter's queue holds, while its
// exporters hold it up.
func flood(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	no := atomic.AddInt64(&traceNo, 1)
	w := &world{r: r, tr: tr, t0: time.Now(), kid: map[string]int{"alpha": 1}, keys: []tag.Key{tag.MustNewKey("alpha")}}
	a := &meas{id: 1, name: fmt.Sprintf("f1.%d", no), u: "1", t: "i"}
	a.i = stats.Int64(a.name, "", "1")
	b := &meas{id: 2, name: fmt.Sprintf("f2.%d", no), u: "1", t: "f"}
	b.f = stats.Float64(b.name, "", "1")
	w.ms = []*meas{a, b}
	var m *meter
	if r.Intn(2) == 0 {
		var restore func()
		if m, restore = w.create(true); m.m == nil {
			w.mets = nil
			m, _ = w.create(false)
		} else {
			defer restore()
		}
	} else {
		m, _ = w.create(false)
	}
	tr.Ev = nil
	nc := 2 + r.Intn(3)
	type class struct {
		x   *meas
		ctx context.Context
		v   int
	}
	var cs []*class
	ces := []M{}
	for i := 0; i < nc; i++ {
		c := &class{x: w.ms[r.Intn(2)], v: 2 * (1 + r.Intn(6))}
		tv := fmt.Sprintf("c%d", i)
		c.ctx, _ = tag.New(context.Background(), tag.Insert(w.keys[0], tv))
		cs = append(cs, c)
		ces = append(ces, M{"m": c.x.id, "tv": tv, "v": c.v})
	}
	m.m.Start()
	var vs []*view.View
	ves := []M{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		v := &view.View{Name: fmt.Sprintf("v%d", i), Measure: w.ms[r.Intn(2)].measure(), TagKeys: w.keys,
			Aggregation: []*view.Aggregation{view.Count(), view.Sum(), view.LastValue(), view.Distribution(2, 4)}[r.Intn(4)]}
		vs = append(vs, v)
		ves = append(ves, w.def(v))
	}
	if err := m.m.Register(vs...); err != nil {
		panic(err)
	}
	tr.Add(M{"e": "call", "th": 0, "op": "setup", "cl": ces, "views": ves})
	gate := make(chan struct{})
	nx := r.Intn(3)
	for i := 0; i < nx; i++ {
		m.m.RegisterExporter(&gated{exporter: exporter{w, m, i + 1}, gate: gate, hold: int64(1 + r.Intn(6))})
	}
	m.m.SetReportingPeriod(time.Duration(1+r.Intn(6)) * time.Millisecond)
	var progress, finished int64
	k := 2 + r.Intn(3)
	rs := make([]*rand.Rand, k+1)
	for i := range rs {
		rs[i] = rand.New(rand.NewSource(r.Int63()))
	}
	stops := r.Intn(3) == 0
	sizes := []int{1, 10, 200, 600, 1023, 1024, 1025, 1500, 3000}
	work := func(th int, r *rand.Rand) {
		for i := 1 + r.Intn(3); i > 0; i-- {
			if r.Intn(4) == 0 {
				w.retrieve(th, m, vs[r.Intn(len(vs))].Name)
				continue
			}
			ci := r.Intn(nc)
			c, n := cs[ci], sizes[r.Intn(len(sizes))]
			w.op(th, m, "burst", M{"c": ci + 1, "k": n}, func() M {
				one := []stats.Measurement{c.x.at(c.v, 0)}
				for j := 0; j < n; j++ {
					if m.def {
						stats.Record(c.ctx, one...)
					} else {
						stats.RecordWithOptions(c.ctx, stats.WithMeasurements(one...), stats.WithRecorder(m.m))
					}
					atomic.AddInt64(&progress, 1)
				}
				return nil
			})
		}
		if stops && th == 0 {
			w.stop(th, m)
		}
	}
	done := make(chan struct{})
	go func() {
		vlib.Par(tr, k, func(th int) { work(th, rs[th]); atomic.AddInt64(&finished, 1) })
		close(done)
	}()
	// let an export through when nothing moves any more
	go func() {
		last, still := int64(-1), 0
		for {
			select {
			case <-done:
				close(gate)
				return
			default:
			}
			if p := atomic.LoadInt64(&progress); p != last {
				last, still = p, 0
			} else if still++; still > 20 {
				select {
				case gate <- struct{}{}:
				default:
				}
				still = 0
			}
			runtime.Gosched()
			time.Sleep(20 * time.Microsecond)
		}
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Minute):
		tr.Add(M{"e": "hang", "th": 0, "op": "hang", "stack": vlib.AllFrames()})
		e.Emit(tr)
		e.Close()
		os.Exit(0)
	}
	for _, v := range vs {
		w.retrieve(0, m, v.Name)
	}
	if !stops {
		m.m.Stop()
	}
}

func TestFlood(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { flood(e, r, tr) })
}
