//go:build go1.25

// Package metricdrv drives the metric registry.
package metricdrv

import (
	"bytes"
	"encoding/json"
	"math"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

type M = vlib.M

type met struct {
	id, ty, nk int // nk: number of label keys without the constant ones
	obj        interface{}
}

type ent struct {
	id, ty int
	obj    interface{}
}

type fn struct {
	i  int64
	id int
}

type world struct {
	tr     *vlib.Trace
	reg    *metric.Registry
	t0     time.Time
	strs   vlib.Intern[string]
	ptrs   vlib.Intern[interface{}]
	mu     sync.Mutex
	mets   []*met
	ents   []*ent
	fns    []*fn
	iscale int64
	fscale float64
	keys   map[metricdata.LabelKey]int
	held   []func() bool
	wide   bool
	pool   []string
	ng     int64
}

func (w *world) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (w *world) ev(e string, th int, op string, a M) {
	m := M{"e": e, "th": th, "op": op, "t": w.now()}
	for k, v := range a {
		m[k] = v
	}
	w.tr.Add(m)
}

func (w *world) op(th int, op string, a M, f func() M) {
	w.ev("inv", th, op, a)
	w.ev("ret", th, op, f())
}

func (w *world) lv(v metricdata.LabelValue) int {
	if !v.Present {
		return 0
	}
	return w.strs.ID(v.Value)
}

func (w *world) lvs(vs []metricdata.LabelValue) []int {
	out := []int{}
	for _, v := range vs {
		out = append(out, w.lv(v))
	}
	return out
}

func (w *world) kid(k metricdata.LabelKey) int {
	if i, ok := w.keys[k]; ok {
		return i
	}
	return -1
}

func (w *world) ms(t time.Time) int {
	if t.IsZero() {
		return -1
	}
	d := t.Sub(w.t0)
	if d < 0 || d%time.Millisecond != 0 {
		return -2
	}
	return int(d / time.Millisecond)
}

var names = []string{"met.a", "met.b", "met.c"}
var keyNames = []string{"k1", "k2", "k3", "k4", "k5", "k6"}

func randStr(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		n := []int{125, 126, 127, 128, 129, 254, 255, 256, 300, 16381, 16382, 16383, 16384, 16385, 70000}[r.Intn(15)]
		return strings.Repeat(string([]byte{byte(r.Intn(3))}), n)
	}
	b := make([]byte, r.Intn(6))
	al := []byte{0, 1, 2, 3, 4, 'a', 'b', 0x80, 0xff}
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

func (w *world) label(r *rand.Rand) metricdata.LabelValue {
	switch r.Intn(8) {
	case 0:
		return metricdata.LabelValue{}
	case 1:
		if r.Intn(3) == 0 {
			return metricdata.LabelValue{Value: "ignored"}
		}
	}
	if w.wide {
		return metricdata.NewLabelValue(randStr(r))
	}
	return metricdata.NewLabelValue(w.pool[r.Intn(len(w.pool))])
}

func (w *world) labels(r *rand.Rand, m *met) []metricdata.LabelValue {
	n := m.nk
	if r.Intn(20) == 0 {
		n = r.Intn(m.nk + 3)
	}
	out := make([]metricdata.LabelValue, n, n+r.Intn(3))
	for i := range out {
		out[i] = w.label(r)
	}
	return out
}

func (w *world) add(th int, r *rand.Rand) {
	name, ty := names[r.Intn(len(names))], 1+r.Intn(8)
	if r.Intn(2) == 0 { // the same name tends to have the same type
		ty = 1 + int(name[4]-'a')*2 + r.Intn(2)
	}
	var os []metric.Options
	desc, unit := "", ""
	if r.Intn(2) == 0 {
		desc = []string{"d1", "d2"}[r.Intn(2)]
		os = append(os, metric.WithDescription(desc))
	}
	if r.Intn(2) == 0 {
		unit = string([]metricdata.Unit{metricdata.UnitBytes, metricdata.UnitMilliseconds}[r.Intn(2)])
		os = append(os, metric.WithUnit(metricdata.Unit(unit)))
	}
	perm := r.Perm(len(keyNames))
	nk, nc := r.Intn(4), []int{0, 0, 1, 2, 3, 3}[r.Intn(6)]
	kids, cks := []int{}, []int{}
	consts := map[metricdata.LabelKey]metricdata.LabelValue{}
	for _, i := range perm[:nc] {
		cks = append(cks, i+1)
		k := metricdata.LabelKey{Key: keyNames[i]}
		if r.Intn(2) == 0 {
			k.Description = "kd"
		}
		consts[k] = w.label(r)
	}
	// constant labels come first, ordered by key
	for i := range keyNames {
		for k := range consts {
			if k.Key == keyNames[i] {
				kids = append(kids, w.kid(k))
			}
		}
	}
	cv := []int{}
	for i := range keyNames {
		for k, v := range consts {
			if k.Key == keyNames[i] {
				cv = append(cv, w.lv(v))
			}
		}
	}
	if nc > 0 {
		os = append(os, metric.WithConstLabel(consts))
	}
	ks := perm[nc : nc+nk]
	if r.Intn(2) == 0 {
		var n []string
		for _, i := range ks {
			n = append(n, keyNames[i])
			kids = append(kids, w.kid(metricdata.LabelKey{Key: keyNames[i]}))
		}
		os = append(os, metric.WithLabelKeys(n...))
	} else {
		var n []metricdata.LabelKey
		for _, i := range ks {
			k := metricdata.LabelKey{Key: keyNames[i], Description: []string{"", "kd"}[r.Intn(2)]}
			n = append(n, k)
			kids = append(kids, w.kid(k))
		}
		os = append(os, metric.WithLabelKeysAndDescription(n...))
	}
	g := int(atomic.AddInt64(&w.ng, 1))
	var obj interface{}
	ok := false
	w.op(th, "madd", M{"g": g, "d": M{"name": name, "ty": ty, "keys": kids, "const": cv, "desc": desc, "unit": unit}}, func() M {
		var err error
		switch ty {
		case 1:
			obj, err = w.reg.AddInt64Gauge(name, os...)
		case 2:
			obj, err = w.reg.AddFloat64Gauge(name, os...)
		case 3:
			obj, err = w.reg.AddInt64DerivedGauge(name, os...)
		case 4:
			obj, err = w.reg.AddFloat64DerivedGauge(name, os...)
		case 5:
			obj, err = w.reg.AddInt64Cumulative(name, os...)
		case 6:
			obj, err = w.reg.AddFloat64Cumulative(name, os...)
		case 7:
			obj, err = w.reg.AddInt64DerivedCumulative(name, os...)
		case 8:
			obj, err = w.reg.AddFloat64DerivedCumulative(name, os...)
		}
		ok = err == nil
		return M{"err": err != nil}
	})
	if ok {
		w.mu.Lock()
		w.mets = append(w.mets, &met{g, ty, nk, obj})
		w.mu.Unlock()
	}
}

func (w *world) pick(r *rand.Rand) (*met, *ent, *fn) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var m *met
	var e *ent
	var f *fn
	if len(w.mets) > 0 {
		m = w.mets[r.Intn(len(w.mets))]
	}
	if len(w.ents) > 0 {
		e = w.ents[r.Intn(len(w.ents))]
	}
	if len(w.fns) > 0 {
		f = w.fns[r.Intn(len(w.fns))]
	}
	return m, e, f
}

func (w *world) entry(th int, r *rand.Rand) {
	m, _, f := w.pick(r)
	if m == nil {
		return
	}
	lv := w.labels(r, m)
	if m.ty == 3 || m.ty == 4 || m.ty == 7 || m.ty == 8 {
		id := f.id
		if r.Intn(15) == 0 {
			id = 0
		}
		w.op(th, "upsert", M{"g": m.id, "lv": w.lvs(lv), "f": id}, func() M {
			var err error
			fi := func() int64 { return atomic.LoadInt64(&f.i) * w.iscale }
			ff := func() float64 { return float64(atomic.LoadInt64(&f.i)) * w.fscale }
			if id == 0 {
				fi, ff = nil, nil
			}
			switch o := m.obj.(type) {
			case *metric.Int64DerivedGauge:
				err = o.UpsertEntry(fi, lv...)
			case *metric.Float64DerivedGauge:
				err = o.UpsertEntry(ff, lv...)
			case *metric.Int64DerivedCumulative:
				err = o.UpsertEntry(fi, lv...)
			case *metric.Float64DerivedCumulative:
				err = o.UpsertEntry(ff, lv...)
			}
			return M{"err": err != nil}
		})
		return
	}
	var got *ent
	w.op(th, "get", M{"g": m.id, "lv": w.lvs(lv)}, func() M {
		var err error
		var obj interface{}
		switch o := m.obj.(type) {
		case *metric.Int64Gauge:
			obj, err = o.GetEntry(lv...)
		case *metric.Float64Gauge:
			obj, err = o.GetEntry(lv...)
		case *metric.Int64Cumulative:
			obj, err = o.GetEntry(lv...)
		case *metric.Float64Cumulative:
			obj, err = o.GetEntry(lv...)
		}
		if err != nil {
			return M{"err": true, "x": 0}
		}
		id := w.ptrs.ID(obj)
		got = &ent{id, m.ty, obj}
		// the caller may reuse its slice
		for i := range lv {
			lv[i] = metricdata.NewLabelValue("overwritten")
		}
		return M{"err": false, "x": id}
	})
	if got != nil {
		w.mu.Lock()
		w.ents = append(w.ents, got)
		w.mu.Unlock()
	}
}

func (w *world) update(th int, r *rand.Rand, e *ent) {
	v := r.Intn(12) - 4
	iv, fv := int64(v)*w.iscale, float64(v)*w.fscale
	set := r.Intn(3) == 0
	opn := "add"
	if e.ty >= 5 {
		opn = "inc"
	} else if set {
		opn = "set"
	}
	w.op(th, opn, M{"x": e.id, "v": v}, func() M {
		switch o := e.obj.(type) {
		case *metric.Int64GaugeEntry:
			if set {
				o.Set(iv)
			} else {
				o.Add(iv)
			}
		case *metric.Float64Entry:
			if set {
				o.Set(fv)
			} else {
				o.Add(fv)
			}
		case *metric.Int64CumulativeEntry:
			o.Inc(iv)
		case *metric.Float64CumulativeEntry:
			o.Inc(fv)
		}
		return nil
	})
}

func (w *world) enc(ms []*metricdata.Metric) []M {
	out := []M{}
	tn := map[metricdata.Type]string{metricdata.TypeGaugeInt64: "GaugeInt64", metricdata.TypeGaugeFloat64: "GaugeFloat64",
		metricdata.TypeCumulativeInt64: "CumulativeInt64", metricdata.TypeCumulativeFloat64: "CumulativeFloat64"}
	for _, m := range ms {
		d := m.Descriptor
		ks := []int{}
		for _, k := range d.LabelKeys {
			ks = append(ks, w.kid(k))
		}
		ts := []M{}
		for _, s := range m.TimeSeries {
			x := M{"lv": w.lvs(s.LabelValues), "np": len(s.Points), "st": w.ms(s.StartTime), "v": -99999, "at": -3}
			if len(s.Points) > 0 {
				x["at"] = w.ms(s.Points[0].Time)
				val := s.Points[0].Value
				if atomic.AddInt64(&reads, 1)%2 == 0 { // as a visitor sees it
					var g got
					s.Points[0].ReadValue(&g)
					val = g.v
				}
				switch v := val.(type) {
				case int64:
					if v%w.iscale == 0 && math.Abs(float64(v/w.iscale)) < 1e8 && strings.HasSuffix(tn[d.Type], "Int64") {
						x["v"] = int(v / w.iscale)
					}
				case float64:
					q := v / w.fscale
					if q == math.Trunc(q) && math.Abs(q) < 1e8 && strings.HasSuffix(tn[d.Type], "Float64") {
						x["v"] = int(q)
					}
				}
			}
			ts = append(ts, x)
		}
		out = append(out, M{"name": d.Name, "desc": d.Description, "unit": string(d.Unit), "ty": tn[d.Type], "keys": ks, "ts": ts})
	}
	return out
}

var reads int64

// got takes the value of a point
type got struct {
	v interface{}
	n int
}

func (g *got) put(v interface{}) {
	if g.v, g.n = v, g.n+1; g.n > 1 {
		g.v = nil
	}
}
func (g *got) VisitInt64Value(v int64)                           { g.put(v) }
func (g *got) VisitFloat64Value(v float64)                       { g.put(v) }
func (g *got) VisitDistributionValue(v *metricdata.Distribution) { g.put(v) }
func (g *got) VisitSummaryValue(v *metricdata.Summary)           { g.put(v) }

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (w *world) read(th int) {
	w.op(th, "read", nil, func() M {
		ms := w.reg.Read()
		e := w.enc(ms)
		b := js(e)
		w.mu.Lock()
		w.held = append(w.held, func() bool { return bytes.Equal(js(w.enc(ms)), b) })
		w.mu.Unlock()
		return M{"r": e}
	})
}

func (w *world) step(th int, r *rand.Rand, adds bool) {
	_, e, f := w.pick(r)
	k := r.Intn(20)
	switch {
	case k < 2 && adds:
		w.add(th, r)
	case k < 7:
		w.entry(th, r)
	case k < 8:
		v := r.Intn(20) - 5
		w.op(th, "setfn", M{"f": f.id, "v": v}, func() M { atomic.StoreInt64(&f.i, int64(v)); return nil })
	case k < 12 && k > 9:
		w.read(th)
	default:
		if e != nil {
			w.update(th, r, e)
		}
	}
}

func TestMetric(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(t, func(*testing.T) { body(e, r, tr) })
	})
}

func body(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	w := &world{tr: tr, reg: metric.NewRegistry(), t0: time.Now(), keys: map[metricdata.LabelKey]int{}}
	for i, k := range keyNames {
		w.keys[metricdata.LabelKey{Key: k}] = i + 1
		w.keys[metricdata.LabelKey{Key: k, Description: "kd"}] = i + 11
	}
	w.iscale = []int64{1, 1, 1 << 20, 1 << 40, (1 << 53) + 1}[r.Intn(5)]
	w.fscale = []float64{1, 0.5, 1.0 / (1 << 20), 1 << 30, 1 << 60}[r.Intn(5)]
	seq := e.Mode == "c16-seq" || e.Mode == "c17-seq"
	w.wide = strings.HasPrefix(e.Mode, "c17") && r.Intn(2) == 0
	for i := 0; i < 4; i++ {
		w.pool = append(w.pool, randStr(r))
	}
	for i := 1; i <= 3; i++ {
		f := &fn{int64(i), i}
		w.fns = append(w.fns, f)
		w.op(0, "setfn", M{"f": i, "v": i}, func() M { return nil })
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		w.add(0, r)
	}
	for i := r.Intn(4); i > 0; i-- {
		w.entry(0, r)
	}
	n := 12 + r.Intn(20)
	if !seq {
		k, cnt := 2+r.Intn(2), 2+r.Intn(4)
		rs := make([]*rand.Rand, k+1)
		for i := range rs {
			rs[i] = rand.New(rand.NewSource(r.Int63()))
		}
		var hot *ent // in half of the behaviours, all work on one entry
		if e.Mode == "c16" && r.Intn(2) == 0 {
			for i := 0; i < 20 && len(w.ents) == 0; i++ {
				w.entry(0, r)
			}
			if len(w.ents) > 0 {
				hot = vlib.Pick(r, w.ents)
			}
		}
		vlib.Par(tr, k, func(th int) {
			for i := 0; i < cnt; i++ {
				if hot != nil && rs[th].Intn(12) > 0 {
					w.update(th, rs[th], hot)
					continue
				}
				w.step(th, rs[th], th == 1) // adding metrics is for one goroutine at a time
			}
		})
		n = r.Intn(5)
	}
	for i := 0; i < n; i++ {
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(1+r.Intn(50)) * time.Millisecond)
		}
		w.step(0, r, true)
	}
	w.read(0)
	bad := 0
	for _, h := range w.held {
		if !h() {
			bad++
		}
	}
	w.ev("call", 0, "stable", M{"bad": bad})
}
