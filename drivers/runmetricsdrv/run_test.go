//go:build go1.25

// Package runmetricsdrv drives the runtime metrics producer.
package runmetricsdrv

import (
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
)

type M = vlib.M

type fake struct{ id int }

func (*fake) Read() []*metricdata.Metric { return nil }

type world struct {
	tr      *vlib.Trace
	fakes   []*fake
	ballast [][]byte
	parked  []chan struct{}
}

var sink []byte

func (w *world) op(th int, op string, a M, f func() M) {
	w.tr.Inv(th, op, a)
	w.tr.Ret(th, op, f())
}

func (w *world) step(th int, r *rand.Rand) {
	gm := metricproducer.GlobalManager()
	switch k := r.Intn(12); {
	case k < 6:
		o := runmetrics.RunMetricOptions{EnableCPU: r.Intn(3) > 0, EnableMemory: r.Intn(3) > 0, UseDerivedCumulative: r.Intn(2) == 0,
			Prefix: vlib.Pick(r, []string{"", "", "x_", "process/", "p q/", strings.Repeat("z", 300)})}
		w.op(th, "enable", M{"o": M{"cpu": o.EnableCPU, "mem": o.EnableMemory, "der": o.UseDerivedCumulative, "pfx": o.Prefix}},
			func() M { return M{"err": runmetrics.Enable(o) != nil} })
	case k < 9:
		w.op(th, "disable", nil, func() M { runmetrics.Disable(); return nil })
	default:
		p := vlib.Pick(r, w.fakes)
		if r.Intn(2) == 0 {
			w.op(th, "padd", M{"p": p.id}, func() M { gm.AddProducer(p); return nil })
		} else {
			w.op(th, "pdel", M{"p": p.id}, func() M { gm.DeleteProducer(p); return nil })
		}
	}
}

func (w *world) look() []metricproducer.Producer {
	rt, others := []metricproducer.Producer{}, []int{}
	for _, p := range metricproducer.GlobalManager().GetAll() {
		if f, ok := p.(*fake); ok {
			others = append(others, f.id)
		} else {
			rt = append(rt, p)
		}
	}
	w.tr.Call("look", M{"rt": len(rt), "others": others})
	return rt
}

// disturb changes the runtime's statistics.
func (w *world) disturb(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.GC()
	case 1:
		debug.FreeOSMemory()
	case 2:
		w.ballast = append(w.ballast, make([]byte, 1<<uint(10+r.Intn(11))))
	case 3:
		for i := r.Intn(50); i > 0; i-- {
			sink = make([]byte, 100+r.Intn(1000))
		}
		w.ballast = nil
	case 4:
		c := make(chan struct{})
		for i := 1 + r.Intn(8); i > 0; i-- {
			go func() { <-c }()
		}
		w.parked = append(w.parked, c)
	default:
		for i := 0; i < 200; i++ {
			w.ballast = append(w.ballast, make([]byte, 1+r.Intn(300)))
		}
	}
}

// statistics that never decrease
var monotone = map[string]bool{"TotalAlloc": true, "Sys": true, "Lookups": true, "Mallocs": true, "Frees": true, "NumGC": true, "NumForcedGC": true,
	"LastGCms": true, "PauseTotalms": true, "NumCgoCall": true}

func stats() map[string]float64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	out := map[string]float64{}
	v := reflect.ValueOf(ms)
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint64, reflect.Uint32:
			out[v.Type().Field(i).Name] = float64(f.Uint())
		case reflect.Float64:
			out[v.Type().Field(i).Name] = f.Float()
		}
	}
	out["LastGCms"] = float64(int64(ms.LastGC) / int64(time.Millisecond))
	out["PauseTotalms"] = float64(int64(ms.PauseTotalNs) / int64(time.Millisecond))
	out["NumGoroutine"] = float64(runtime.NumGoroutine())
	out["NumCgoCall"] = float64(runtime.NumCgoCall())
	return out
}

func (w *world) log(ms []*metricdata.Metric, lo, hi map[string]float64, free func(string) bool) {
	var vals []float64
	for _, m := range []map[string]float64{lo, hi} {
		for _, v := range m {
			vals = append(vals, v)
		}
	}
	val := func(m *metricdata.Metric) (float64, bool) {
		if len(m.TimeSeries) == 0 || len(m.TimeSeries[0].Points) == 0 {
			return 0, false
		}
		switch x := m.TimeSeries[0].Points[0].Value.(type) {
		case int64:
			return float64(x), m.Descriptor.Type == metricdata.TypeGaugeInt64 || m.Descriptor.Type == metricdata.TypeCumulativeInt64
		case float64:
			return x, m.Descriptor.Type == metricdata.TypeGaugeFloat64
		}
		return 0, false
	}
	for _, m := range ms {
		v, _ := val(m)
		vals = append(vals, v)
	}
	sort.Float64s(vals)
	rank := func(v float64) int { return sort.SearchFloat64s(vals, v) + 1 }
	f := M{}
	for k := range lo {
		if free(k) {
			f[k] = []int{0, len(vals) + 1}
		} else {
			f[k] = []int{rank(lo[k]), rank(hi[k])}
		}
	}
	out := []M{}
	for _, m := range ms {
		v, ok := val(m)
		rk := -1
		if ok {
			rk = rank(v)
		}
		npt, nl := 0, len(m.Descriptor.LabelKeys)
		for _, ts := range m.TimeSeries {
			npt += len(ts.Points)
			nl += len(ts.LabelValues)
		}
		out = append(out, M{"n": m.Descriptor.Name, "u": string(m.Descriptor.Unit), "ty": int(m.Descriptor.Type), "v": rk, "nts": len(m.TimeSeries), "npt": npt, "nl": nl})
	}
	w.tr.Call("read", M{"ms": out, "f": f})
}

// read looks until the statistics are at rest around a read.
func (w *world) read(p metricproducer.Producer) {
	var lo, hi map[string]float64
	var ms []*metricdata.Metric
	for try := 0; try < 40; try++ {
		lo = stats()
		ms = p.Read()
		hi = stats()
		rest := true
		for k := range lo {
			rest = rest && (monotone[k] || lo[k] == hi[k])
		}
		if rest {
			break
		}
	}
	w.log(ms, lo, hi, func(k string) bool { return !monotone[k] && lo[k] != hi[k] })
}

func body(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	w := &world{tr: tr}
	gm := metricproducer.GlobalManager()
	runmetrics.Disable()
	for _, p := range gm.GetAll() {
		gm.DeleteProducer(p)
	}
	for i := 1; i <= 2; i++ {
		w.fakes = append(w.fakes, &fake{i})
	}
	defer func() {
		for _, c := range w.parked {
			close(c)
		}
	}()
	check := func() {
		rt := w.look()
		if len(rt) != 1 {
			return
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			for j := r.Intn(3); j > 0; j-- {
				w.disturb(r)
			}
			w.read(rt[0])
		}
		if r.Intn(4) == 0 && !e.Instr {
			// readers at once
			var mu sync.Mutex
			type rd struct {
				ms     []*metricdata.Metric
				lo, hi map[string]float64
			}
			var rs []rd
			vlib.Par(tr, 3, func(int) {
				x := rd{lo: stats()}
				x.ms = rt[0].Read()
				x.hi = stats()
				mu.Lock()
				rs = append(rs, x)
				mu.Unlock()
			})
			for _, x := range rs {
				w.log(x.ms, x.lo, x.hi, func(k string) bool { return !monotone[k] })
			}
		}
		if r.Intn(5) == 0 {
			w.op(1, "delrt", nil, func() M { gm.DeleteProducer(rt[0]); return nil })
			w.look()
		}
	}
	for ph := 1 + r.Intn(3); ph > 0; ph-- {
		for i := r.Intn(5); i > 0; i-- {
			w.step(1, r)
			if r.Intn(2) == 0 {
				check()
			}
		}
		if e.Mode != "seq" {
			n, cnt := 2+r.Intn(2), 1+r.Intn(3)
			rs := make([]*rand.Rand, n+1)
			for i := range rs {
				rs[i] = rand.New(rand.NewSource(r.Int63()))
			}
			vlib.Par(tr, n, func(th int) {
				for i := 0; i < cnt; i++ {
					w.step(th, rs[th])
				}
			})
		}
		check()
	}
}

// TestRun records Enable and Disable.
func TestRun(t *testing.T) {
	e := vlib.Open(t)
	// some automatic collections, then only forced ones
	debug.SetGCPercent(10)
	for i := 0; i < 200; i++ {
		sink = make([]byte, 1<<20)
	}
	debug.SetGCPercent(20000)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { body(e, r, tr) })
}
