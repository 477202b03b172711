//go:build go1.25

// Package viewdrv drives stats and stats/view in virtual time.
package viewdrv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

type M = vlib.M

var traceNo int64

const nKeys = 4

type meas struct {
	id             int
	name, md, u, t string
	i              *stats.Int64Measure
	f              *stats.Float64Measure
}

func (x *meas) measure() stats.Measure {
	if x.i != nil {
		return x.i
	}
	return x.f
}

// value is half of v2, from the program's origin
func (x *meas) at(v2 int, base float64) stats.Measurement {
	if x.i != nil {
		return x.i.M(int64(v2/2) + int64(base))
	}
	return x.f.M(float64(v2)/2 + base)
}

type meter struct {
	id  int
	m   view.Meter
	def bool
	exp []*exporter
}

type exporter struct {
	w  *world
	m  *meter
	id int
}

type held struct {
	enc  func() []byte
	prev []byte
}

type world struct {
	base float64
	r    *rand.Rand
	tr   *vlib.Trace
	mode string
	t0   time.Time
	ms   []*meas
	keys []tag.Key
	kid  map[string]int
	mu   sync.Mutex
	mets []*meter
	res  []*resource.Resource
	held []held
	aggs []*view.Aggregation
	pool []*vdef // definitions used by the sequential parts
}

func (w *world) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (w *world) ev(e string, th int, op string, a M) {
	m := M{"e": e, "th": th, "op": op, "t": w.now()}
	for k, v := range a {
		m[k] = v
	}
	w.tr.Add(m)
}

func (w *world) hold(enc func() []byte) {
	b := enc()
	w.mu.Lock()
	w.held = append(w.held, held{enc, b})
	w.mu.Unlock()
}

func (w *world) ms2(t time.Time) int {
	if t.IsZero() {
		return -1
	}
	d := t.Sub(w.t0)
	if d < 0 || d%time.Millisecond != 0 {
		return -2
	}
	return int(d / time.Millisecond)
}

// approximate doubled value, -99999 if it is not a multiple of one half
func dbl(v float64) int {
	r := math.Round(v * 2)
	if math.Abs(r-v*2) > 1e-3 || math.Abs(r) > 1e8 {
		return -99999
	}
	return int(r)
}

// off takes the program's origin out of a value or a sum of values
func (w *world) off(v float64) float64 {
	if w.base == 0 {
		return v
	}
	return v - math.Round(v/w.base)*w.base
}

func sq(n int64, ssd float64) int {
	x := float64(n) * ssd * 4
	r := math.Round(x)
	if math.Abs(r-x) > 1e-3*float64(n+1) || math.Abs(r) > 1e9 {
		return -99999
	}
	return int(r)
}

func (w *world) ex(e *metricdata.Exemplar) []int {
	if e == nil {
		return []int{}
	}
	id, ok := e.Attachments["id"].(int)
	if !ok || len(e.Attachments) != 1 {
		id = -1
	}
	return []int{dbl(w.off(e.Value)), id, w.ms2(e.Timestamp)}
}

func ints(b []int64) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func (w *world) bounds2(b []float64) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = dbl(w.off(x))
	}
	return out
}

func (w *world) data(d view.AggregationData) M {
	switch x := d.(type) {
	case *view.CountData:
		return M{"ty": "count", "n": int(x.Value), "st": w.ms2(x.StartTime())}
	case *view.SumData:
		return M{"ty": "sum", "s": dbl(w.off(x.Value)), "st": w.ms2(x.StartTime())}
	case *view.LastValueData:
		return M{"ty": "last", "v": dbl(w.off(x.Value)), "st": w.ms2(x.StartTime())}
	case *view.DistributionData:
		ex := [][]int{}
		for _, e := range x.ExemplarsPerBucket {
			ex = append(ex, w.ex(e))
		}
		return M{"ty": "dist", "n": int(x.Count), "s": dbl(w.off(x.Mean * float64(x.Count))), "mn": dbl(w.off(x.Min)), "mx": dbl(w.off(x.Max)),
			"q": sq(x.Count, x.SumOfSquaredDev), "b": ints(x.CountPerBucket), "ex": ex, "st": w.ms2(x.StartTime())}
	}
	return M{"ty": fmt.Sprintf("%T", d), "st": -3}
}

func (w *world) rows(rows []*view.Row) []M {
	out := []M{}
	for _, r := range rows {
		tg := [][]interface{}{}
		for _, t := range r.Tags {
			tg = append(tg, []interface{}{w.kid[t.Key.Name()], t.Value})
		}
		out = append(out, M{"tags": tg, "d": w.data(r.Data)})
	}
	return out
}

func (w *world) def(v *view.View) M {
	m := M{"n": v.Name, "desc": v.Description, "m": 0, "agg": "", "b": []int{}, "keys": []int{}}
	if v.Measure != nil {
		for _, x := range w.ms {
			if x.name == v.Measure.Name() {
				m["m"] = x.id
			}
		}
	}
	if v.Aggregation != nil {
		switch v.Aggregation.Type {
		case view.AggTypeCount:
			m["agg"] = "count"
		case view.AggTypeSum:
			m["agg"] = "sum"
		case view.AggTypeLastValue:
			m["agg"] = "last"
		case view.AggTypeDistribution:
			m["agg"] = "dist"
		}
		m["b"] = w.bounds2(v.Aggregation.Buckets)
	}
	ks := []int{}
	for _, k := range v.TagKeys {
		ks = append(ks, w.kid[k.Name()])
	}
	m["keys"] = ks
	return m
}

func (w *world) metrics(ms []*metricdata.Metric) []M {
	out := []M{}
	for _, m := range ms {
		d := m.Descriptor
		ks := []int{}
		for _, k := range d.LabelKeys {
			ks = append(ks, w.kid[k.Key])
		}
		ty := "?"
		switch d.Type {
		case metricdata.TypeCumulativeInt64:
			ty = "CumulativeInt64"
		case metricdata.TypeCumulativeFloat64:
			ty = "CumulativeFloat64"
		case metricdata.TypeCumulativeDistribution:
			ty = "CumulativeDistribution"
		case metricdata.TypeGaugeInt64:
			ty = "GaugeInt64"
		case metricdata.TypeGaugeFloat64:
			ty = "GaugeFloat64"
		}
		res := -1
		if m.Resource == nil {
			res = 0
		}
		for i, r := range w.res {
			if m.Resource == r {
				res = i
			}
		}
		ts := []M{}
		for _, s := range m.TimeSeries {
			lv := [][]interface{}{}
			for _, v := range s.LabelValues {
				p := 0
				if v.Present {
					p = 1
				}
				lv = append(lv, []interface{}{p, v.Value})
			}
			x := M{"lv": lv, "np": len(s.Points), "st": w.ms2(s.StartTime), "at": -3, "pt": M{"ty": "none"}}
			if len(s.Points) > 0 {
				p := s.Points[0]
				x["at"] = w.ms2(p.Time)
				switch v := p.Value.(type) {
				case int64:
					x["pt"] = M{"ty": "i", "v": int(w.off(float64(v))) * 2}
				case float64:
					x["pt"] = M{"ty": "f", "v": dbl(w.off(v))}
				case *metricdata.Distribution:
					b, ex := []int{}, [][]int{}
					for _, k := range v.Buckets {
						b = append(b, int(k.Count))
						ex = append(ex, w.ex(k.Exemplar))
					}
					bd := []int{}
					if v.BucketOptions != nil {
						bd = w.bounds2(v.BucketOptions.Bounds)
					}
					x["pt"] = M{"ty": "d", "n": int(v.Count), "s": dbl(w.off(v.Sum)), "q": sq(v.Count, v.SumOfSquaredDeviation), "b": b, "bd": bd, "ex": ex}
				}
			}
			ts = append(ts, x)
		}
		out = append(out, M{"n": d.Name, "desc": d.Description, "unit": string(d.Unit), "ty": ty, "keys": ks, "res": res, "ts": ts})
	}
	return out
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (x *exporter) ExportView(d *view.Data) {
	w := x.w
	enc := func() M {
		return M{"m": x.m.id, "x": x.id, "v": d.View.Name, "def": w.def(d.View), "s": w.ms2(d.Start), "n": w.ms2(d.End), "rows": w.rows(d.Rows)}
	}
	w.ev("exp", 0, "export", enc())
	w.hold(func() []byte { return js(enc()) })
}

// ---------------------------------------------------------------- the world

var vals = []string{"", "a", "b", "ab", "ba", "a b", strings.Repeat("x", 127), strings.Repeat("x", 128), strings.Repeat("y", 200), strings.Repeat("z", 255)}

func (w *world) val(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return vals[6+r.Intn(4)]
	case 1:
		return []string{"0", "A", " ", "-1", "nil", "a=b", ",", " a", "unknown", "~"}[r.Intn(10)]
	}
	return vals[r.Intn(6)]
}

var pool2 = []int{-7, -2, 0, 1, 2, 3, 4, 5, 8, 10, 20, 40, 41, 60, 200}

// view definitions: some valid, some equal, some conflicting, some invalid
type vdef struct {
	v   *view.View
	ev  M
	x   *meas
	bad bool
}

func (w *world) agg(r *rand.Rand) *view.Aggregation {
	k := r.Intn(10)
	if w.mode == "c11" {
		k = 6 + r.Intn(4)
	}
	switch {
	case k < 2:
		return view.Count()
	case k < 4:
		return view.Sum()
	case k < 6:
		return view.LastValue()
	}
	var b []float64
	n := r.Intn(5)
	cand := []float64{0, 0.5, 1, 2, 2.5, 4, 10, 20, 30}
	last := 0
	for i := 0; i < n; i++ {
		if r.Intn(10) == 0 {
			b = append(b, cand[r.Intn(len(cand))]) // unsorted or repeated
			continue
		}
		last += r.Intn(3)
		if last < len(cand) {
			b = append(b, cand[last])
		}
		last++
	}
	if (w.mode == "c12" || w.mode == "c10") && r.Intn(15) == 0 {
		b = append(b, -1)
	}
	return w.dist(b...)
}

func (w *world) newView(r *rand.Rand) *vdef {
	x := w.ms[r.Intn(len(w.ms))]
	v := &view.View{Name: fmt.Sprintf("v%d", 1+r.Intn(4)), Measure: x.measure(), Aggregation: w.agg(r)}
	if r.Intn(8) == 0 {
		v.Name = ""
	}
	if r.Intn(3) == 0 {
		v.Description = fmt.Sprintf("d%d", r.Intn(3))
	}
	if r.Intn(6) == 0 {
		// one aggregation shared between views and meters
		v.Aggregation = w.aggs[r.Intn(len(w.aggs))]
	}
	for _, i := range r.Perm(nKeys) {
		if r.Intn(2) == 0 {
			v.TagKeys = append(v.TagKeys, w.keys[i])
		}
	}
	d := &vdef{v: v, x: x}
	p := 60
	if w.mode == "c12" {
		p = 12
	}
	switch r.Intn(p) {
	case 0:
		v.Measure = nil
	case 1:
		v.Aggregation = nil
	case 2:
		v.Name, d.bad = strings.Repeat("n", 256), true
	case 3:
		v.Name, d.bad = "bad\x07name", true
	case 4:
		v.Name = strings.Repeat("n", 255)
	case 5:
		v.Name, d.bad = "n\u00e9", true
	}
	d.ev = w.defEv(d)
	if r.Intn(5) == 0 { // made by renaming another
		o := *v
		o.Name = vlib.Pick(r, []string{"", "v1", "zzother"})
		n := o.Name
		d.v = o.WithName(v.Name)
		if o.Name != n {
			d.ev["n"] = "renamed the original"
		}
	}
	return d
}

func (w *world) defEv(d *vdef) M {
	e := w.def(d.v)
	e["mn"], e["md"], e["mt"], e["mu"], e["bad"] = "", "", "", "", d.bad
	if d.v.Measure != nil {
		e["mn"], e["md"], e["mt"], e["mu"] = d.x.name, d.x.md, d.x.t, d.x.u
	}
	return e
}

// ---------------------------------------------------------------- operations

func (w *world) op(th int, m *meter, op string, a M, f func() M) {
	b := M{"m": m.id}
	for k, v := range a {
		b[k] = v
	}
	w.ev("inv", th, op, b)
	r := f()
	if r == nil {
		r = M{}
	}
	r["m"] = m.id
	w.ev("ret", th, op, r)
}

func (w *world) register(th int, m *meter, ds []*vdef) {
	vs, es := []*view.View{}, []M{}
	for _, d := range ds {
		vs = append(vs, d.v)
		es = append(es, w.defEv(d))
	}
	w.op(th, m, "register", M{"views": es}, func() M {
		var err error
		if m.def {
			err = view.Register(vs...)
		} else {
			err = m.m.Register(vs...)
		}
		return M{"err": err != nil}
	})
}

func (w *world) unregister(th int, m *meter, names []string) {
	vs := []*view.View{}
	for _, n := range names {
		vs = append(vs, &view.View{Name: n})
	}
	w.op(th, m, "unregister", M{"ns": names}, func() M {
		if m.def {
			view.Unregister(vs...)
		} else {
			m.m.Unregister(vs...)
		}
		return nil
	})
}

func (w *world) find(th int, m *meter, n string) {
	w.op(th, m, "find", M{"n": n}, func() M {
		var v *view.View
		if m.def {
			v = view.Find(n)
		} else {
			v = m.m.Find(n)
		}
		if v == nil {
			return M{"r": []M{}}
		}
		return M{"r": []M{w.def(v)}}
	})
}

func (w *world) retrieve(th int, m *meter, n string) {
	w.op(th, m, "retrieve", M{"n": n}, func() M {
		var rows []*view.Row
		var err error
		if m.def {
			rows, err = view.RetrieveData(n)
		} else {
			rows, err = m.m.RetrieveData(n)
		}
		w.hold(func() []byte { return js(w.rows(rows)) })
		return M{"err": err != nil, "rows": w.rows(rows)}
	})
}

func (w *world) read(th int, m *meter) {
	p, ok := m.m.(metricproducer.Producer)
	if !ok {
		return
	}
	w.op(th, m, "read", nil, func() M {
		ms := p.Read()
		w.hold(func() []byte { return js(w.metrics(ms)) })
		return M{"r": w.metrics(ms), "at": w.now()}
	})
}

func (w *world) setperiod(th int, m *meter, d int) {
	w.op(th, m, "setperiod", M{"d": d}, func() M {
		if m.def {
			view.SetReportingPeriod(time.Duration(d) * time.Millisecond)
		} else {
			m.m.SetReportingPeriod(time.Duration(d) * time.Millisecond)
		}
		return nil
	})
}

func (w *world) addexp(th int, m *meter, x *exporter) {
	w.op(th, m, "addexp", M{"x": x.id}, func() M {
		if m.def {
			view.RegisterExporter(x)
		} else {
			m.m.RegisterExporter(x)
		}
		return nil
	})
}

func (w *world) delexp(th int, m *meter, x *exporter) {
	w.op(th, m, "delexp", M{"x": x.id}, func() M {
		if m.def {
			view.UnregisterExporter(x)
		} else {
			m.m.UnregisterExporter(x)
		}
		return nil
	})
}

func (w *world) setres(th int, m *meter, i int) {
	w.op(th, m, "setres", M{"r": i}, func() M { m.m.SetResource(w.res[i]); return nil })
}

func (w *world) start(th int, m *meter) {
	w.op(th, m, "start", nil, func() M { m.m.Start(); return nil })
}

func (w *world) stop(th int, m *meter) {
	w.op(th, m, "stop", nil, func() M {
		if m.def {
			view.Stop()
		} else {
			m.m.Stop()
		}
		return nil
	})
}

func (w *world) prod(th int, m *meter) {
	p, ok := m.m.(metricproducer.Producer)
	if !ok {
		return
	}
	w.op(th, m, "prod", nil, func() M {
		n := 0
		for _, q := range metricproducer.GlobalManager().GetAll() {
			if q == p {
				n++
			}
		}
		return M{"r": n == 1}
	})
}

func (w *world) record(th int, r *rand.Rand, m *meter) {
	pairs := [][]interface{}{}
	var muts []tag.Mutator
	for i := 0; i < nKeys; i++ {
		if r.Intn(2) == 0 {
			v := w.val(r)
			pairs = append(pairs, []interface{}{i + 1, v})
			muts = append(muts, tag.Insert(w.keys[i], v))
		}
	}
	ctx := context.Background()
	if len(muts) > 0 {
		c, err := tag.New(ctx, muts...)
		if err != nil {
			panic(err)
		}
		ctx = c
	}
	n := 1
	switch r.Intn(6) {
	case 0:
		n = 2 + r.Intn(2)
	case 1:
		n = 2
	}
	var ms []stats.Measurement
	evs := [][]int{}
	for i := 0; i < n; i++ {
		x := w.ms[r.Intn(len(w.ms))]
		v := pool2[r.Intn(len(pool2))]
		if x.i != nil {
			v = v / 2 * 2
		}
		ms = append(ms, x.at(v, w.base))
		evs = append(evs, []int{x.id, v})
	}
	mevs := [][]interface{}{}
	var cm []tag.Mutator
	api := r.Intn(4) // 0 Record, 1 RecordWithTags, 2 RecordWithOptions, 3 the meter's Record
	if api == 3 && m.def {
		api = 0
	}
	if !m.def && api < 2 {
		api = 2
	}
	if api == 1 || (api == 2 && r.Intn(2) == 0) {
		for i := r.Intn(4); i > 0; i-- {
			k, v, o := r.Intn(nKeys), w.val(r), 1+r.Intn(4)
			if r.Intn(25) == 0 {
				o = 5
			}
			switch o {
			case 1:
				cm = append(cm, tag.Insert(w.keys[k], v))
			case 2:
				cm = append(cm, tag.Update(w.keys[k], v))
			case 3:
				cm = append(cm, tag.Upsert(w.keys[k], v))
			case 4:
				cm = append(cm, tag.Delete(w.keys[k]))
			case 5:
				cm = append(cm, tag.Upsert(w.keys[k], "bad\x01"))
				v = ""
			}
			mevs = append(mevs, []interface{}{o, k + 1, v})
		}
	}
	att := 0
	var at metricdata.Attachments
	if api >= 2 && r.Intn(2) == 0 {
		at = metricdata.Attachments{}
		if r.Intn(5) > 0 {
			att = 1 + r.Intn(9)
			at["id"] = att
		}
	}
	if r.Intn(6) == 0 { // what happened counts even if its context is over
		c, stop := context.WithCancel(ctx)
		stop()
		ctx = c
	}
	w.op(th, m, "record", M{"tags": pairs, "mut": mevs, "ms": evs, "a": att}, func() M {
		var err error
		switch api {
		case 0:
			stats.Record(ctx, ms...)
		case 1:
			err = stats.RecordWithTags(ctx, cm, ms...)
		case 2:
			o := []stats.Options{stats.WithMeasurements(ms...)}
			if !m.def {
				o = append(o, stats.WithRecorder(m.m))
			}
			if cm != nil {
				o = append(o, stats.WithTags(cm...))
			}
			if at != nil {
				o = append(o, stats.WithAttachments(at))
			}
			err = stats.RecordWithOptions(ctx, o...)
		case 3:
			m.m.Record(tag.FromContext(ctx), ms, at)
		}
		// the caller's slice may be reused
		for i := range ms {
			ms[i] = w.ms[0].at(2, w.base)
		}
		return M{"err": err != nil}
	})
}

func (w *world) create(def bool) (*meter, func()) {
	m := &meter{id: len(w.mets) + 1, def: def}
	var restore func()
	if def {
		m.m, restore = swap()
	} else {
		m.m = view.NewMeter()
	}
	for i := 0; i < 3; i++ {
		m.exp = append(m.exp, &exporter{w, m, i + 1})
	}
	w.mets = append(w.mets, m)
	w.ev("inv", 0, "create", M{"m": m.id})
	return m, restore
}

var periods = []int{0, -1, 1000, 1500, 2500, 7000, 15000}

func (w *world) step(th int, r *rand.Rand, conc bool) {
	m := w.mets[r.Intn(len(w.mets))]
	type alt struct {
		p int
		f func()
	}
	nm := func() string {
		if r.Intn(10) == 0 {
			return w.ms[r.Intn(len(w.ms))].name
		}
		return fmt.Sprintf("v%d", 1+r.Intn(4))
	}
	wt := map[string][]int{ //  rec reg unr find retr read per add del res sleep prod start stop
		"c10": {40, 9, 3, 1, 12, 6, 1, 2, 1, 0, 8, 0, 0, 0},
		"c11": {46, 9, 2, 1, 12, 8, 1, 2, 1, 0, 8, 0, 0, 0},
		"c12": {20, 22, 14, 16, 8, 4, 0, 2, 1, 0, 4, 0, 0, 0},
		"c13": {24, 8, 6, 0, 2, 0, 5, 8, 6, 0, 26, 0, 0, 0},
		"c14": {34, 9, 3, 0, 2, 24, 0, 0, 0, 8, 8, 0, 0, 0},
		"c15": {18, 9, 5, 5, 8, 8, 3, 5, 3, 2, 10, 8, 3, 3},
	}[w.mode]
	if wt == nil {
		wt = []int{20, 10, 5, 5, 8, 8, 3, 5, 3, 2, 10, 2, 0, 0}
	}
	alts := []alt{
		{wt[0], func() { w.record(th, r, m) }},
		{wt[1], func() {
			n := 1
			if r.Intn(4) == 0 {
				n = 2 + r.Intn(2)
			}
			var ds []*vdef
			for i := 0; i < n; i++ {
				if !conc && len(w.pool) > 0 && r.Intn(3) == 0 {
					ds = append(ds, w.pool[r.Intn(len(w.pool))]) // an object used before
				} else {
					ds = append(ds, w.newView(r))
				}
			}
			if !conc {
				w.pool = append(w.pool, ds...)
			}
			if r.Intn(3) == 0 && len(ds) > 0 {
				// an equal definition again
				d := ds[r.Intn(len(ds))]
				e := *d.v
				e.Description = "other"
				ds = append(ds, &vdef{v: &e, x: d.x, bad: d.bad})
			}
			w.register(th, m, ds)
			if !conc && r.Intn(3) == 0 {
				if r.Intn(2) == 0 {
					m = w.mets[r.Intn(len(w.mets))] // the same objects for another meter
				}
				w.register(th, m, ds)
			}
		}},
		{wt[2], func() {
			var ns []string
			for i := 1 + r.Intn(2); i > 0; i-- {
				ns = append(ns, nm())
			}
			w.unregister(th, m, ns)
		}},
		{wt[3], func() { w.find(th, m, nm()) }},
		{wt[4], func() { w.retrieve(th, m, nm()) }},
		{wt[5], func() { w.read(th, m) }},
		{wt[6], func() { w.setperiod(th, m, periods[r.Intn(len(periods))]) }},
		{wt[7], func() { w.addexp(th, m, m.exp[r.Intn(len(m.exp))]) }},
		{wt[8], func() { w.delexp(th, m, m.exp[r.Intn(len(m.exp))]) }},
		{wt[9], func() { w.setres(th, m, r.Intn(len(w.res))) }},
		{wt[10], func() {
			d := []int{1, 3, 500, 1000, 2500, 5000, 10000, 12000}[r.Intn(8)]
			if conc {
				d = []int{1, 1, 2, 500, 5000}[r.Intn(5)]
			}
			time.Sleep(time.Duration(d) * time.Millisecond)
		}},
		{wt[11], func() { w.prod(th, m) }},
		{wt[12], func() { w.start(th, m) }},
		{wt[13], func() { w.stop(th, m) }},
	}
	tot := 0
	for _, a := range alts {
		tot += a.p
	}
	k := r.Intn(tot)
	for _, a := range alts {
		if k < a.p {
			a.f()
			return
		}
		k -= a.p
	}
}

// dist is the distribution with the positive bounds counted from the origin
func (w *world) dist(b ...float64) *view.Aggregation {
	for i := range b {
		if b[i] > 0 {
			b[i] += w.base
		}
	}
	return view.Distribution(b...)
}

// par runs the threads; if they do not finish within an hour of virtual time,
// something hangs.
func (w *world) par(e *vlib.Env, n int, f func(th int)) {
	done := make(chan struct{})
	go func() { vlib.Par(w.tr, n, f); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Hour):
		w.tr.Add(M{"e": "hang", "th": 0, "op": "hang", "stack": vlib.AllFrames()})
		e.Emit(w.tr)
		e.Close()
		os.Exit(0)
	}
}

func body(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	mode, seq := strings.TrimSuffix(e.Mode, "-seq"), strings.HasSuffix(e.Mode, "-seq")
	no := atomic.AddInt64(&traceNo, 1)
	w := &world{r: r, tr: tr, mode: mode, t0: time.Now(), kid: map[string]int{}}
	if no%5 == 2 { // far from zero, where careless arithmetic shows
		w.base = 1 << 22
	}
	for i := 0; i < 4; i++ {
		x := &meas{id: i + 1, name: fmt.Sprintf("m%d.%d", i+1, no), md: fmt.Sprintf("md%d", i+1), u: []string{"1", "ms", "By", "kb"}[r.Intn(4)], t: "f"}
		if i%2 == 0 {
			x.t, x.i = "i", stats.Int64(x.name, x.md, x.u)
		} else {
			x.f = stats.Float64(x.name, x.md, x.u)
		}
		w.ms = append(w.ms, x)
	}
	for i, n := range []string{"alpha", "beta", "gamma", "omega"} {
		w.keys = append(w.keys, tag.MustNewKey(n))
		w.kid[n] = i + 1
	}
	w.res = []*resource.Resource{nil, {Type: "r1"}, {Type: "r2"}}
	w.aggs = []*view.Aggregation{w.dist(1, 2, 10), w.dist(2, 20), view.LastValue()}
	mm := w.mode == "c15"
	def, restore := w.create(true)
	if def.m == nil { // the default meter cannot be replaced: leave it alone
		w.mets = nil
		tr.Ev = nil
		w.create(false)
	}
	if mm || r.Intn(3) == 0 || def.m == nil {
		w.create(false)
	}
	if restore != nil {
		defer restore()
	}
	w.par(e, 1, func(int) {
		for _, m := range w.mets {
			if mm && r.Intn(4) == 0 {
				continue
			}
			w.start(0, m)
		}
		started := func(m *meter) bool {
			for _, x := range tr.Ev {
				if x["op"] == "start" && x["m"] == m.id {
					return true
				}
			}
			return false
		}
		if !mm || seq {
			for _, m := range w.mets {
				if !started(m) {
					w.start(0, m)
				}
			}
		}
		live := []*meter{}
		for _, m := range w.mets {
			if started(m) {
				live = append(live, m)
			}
		}
		// a beginning that makes the rest interesting
		for _, m := range live {
			var ds []*vdef
			for i := 1 + r.Intn(3); i > 0; i-- {
				ds = append(ds, w.newView(r))
			}
			w.pool = append(w.pool, ds...)
			w.register(0, m, ds)
			if r.Intn(2) == 0 {
				w.addexp(0, m, m.exp[r.Intn(len(m.exp))])
			}
			for i := r.Intn(4); i > 0; i-- {
				w.record(0, r, m)
			}
		}
	})
	n := 6 + r.Intn(20)
	if !seq {
		k := 2 + r.Intn(2)
		rs := make([]*rand.Rand, k+1)
		for i := range rs {
			rs[i] = rand.New(rand.NewSource(r.Int63()))
		}
		cnt := 3 + r.Intn(4)
		k1 := k
		if mm {
			k1++
		}
		w.par(e, k1, func(th int) {
			if th > k {
				// calls wait for a meter that is not started yet
				if r.Intn(2) == 0 {
					time.Sleep(time.Millisecond)
				}
				for _, m := range w.mets {
					w.start(th, m)
				}
				return
			}
			for i := 0; i < cnt; i++ {
				w.step(th, rs[th], true)
			}
		})
		n = r.Intn(6)
	}
	w.par(e, 1, func(int) {
		for i := 0; i < n; i++ {
			w.step(0, r, false)
		}
		for _, m := range w.mets {
			w.read(0, m)
			if mm {
				w.prod(0, m)
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(10 * time.Second)
			for _, m := range w.mets {
				w.read(0, m)
			}
		}
		for _, m := range w.mets {
			w.stop(0, m)
		}
		for i := r.Intn(4); i > 0; i-- {
			w.step(0, r, false)
		}
		if mm {
			for _, m := range w.mets {
				w.prod(0, m)
			}
		}
	})
	bad := 0
	for _, h := range w.held {
		if !bytes.Equal(h.enc(), h.prev) {
			bad++
		}
	}
	w.ev("call", 0, "stable", M{"bad": bad})
}

func TestView(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(t, func(*testing.T) { body(e, r, tr) })
	})
}
