//go:build go1.25

// Package tmetdrv drives the in-memory metric exporter of metric/test.
package tmetdrv

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync/atomic"
	"testing"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	mtest "go.opencensus.io/metric/test"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

type M = vlib.M

var traceNo int64

func bs(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

var words = []string{"a", "b", "ab", "ba", "aa", "a=b", "=", ",", "\"", "a\"", "", "{", "}", "a,b", "\xff", "\u00e9", "1", "11", " ", "a{b", "\\", "x}"}

// idTexts are the identities of a trace. Two of them whose texts run together to the
// same text share a point, a known finding that TestTmetRunTogether shows; no
// other trace holds such a pair.
type idTexts map[string]string

func (t idTexts) ok(name string, l map[string]string) bool {
	ks := []string{}
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	run, exact := name+"{", fmt.Sprintf("%q", name)
	for _, k := range ks {
		run += k + l[k]
		exact += fmt.Sprintf(" %q=%q", k, l[k])
	}
	run += "}"
	if t[run] == "" {
		t[run] = exact
	}
	return t[run] == exact
}

type prod struct{ ms []*metricdata.Metric }

func (p *prod) Read() []*metricdata.Metric { return p.ms }

// data are random metrics; ev describes their time series in order.
func data(r *rand.Rand, no *int, known idTexts) ([]*metricdata.Metric, []M) {
	ms, ev := []*metricdata.Metric{}, []M{}
	for i := r.Intn(4); i > 0; i-- {
		m := &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: vlib.Pick(r, words)}}
		for _, k := range r.Perm(len(words))[:r.Intn(4)] {
			m.Descriptor.LabelKeys = append(m.Descriptor.LabelKeys, metricdata.LabelKey{Key: words[k], Description: vlib.Pick(r, words)})
		}
		for j := r.Intn(4); j > 0; j-- {
			ts := &metricdata.TimeSeries{StartTime: time.Unix(int64(r.Intn(5)), 0)}
			l, lm := [][]interface{}{}, map[string]string{}
			for _, k := range m.Descriptor.LabelKeys {
				v := metricdata.LabelValue{}
				if r.Intn(3) > 0 {
					v = metricdata.NewLabelValue(vlib.Pick(r, words))
					l = append(l, []interface{}{bs(k.Key), bs(v.Value)})
					lm[k.Key] = v.Value
				} else if r.Intn(2) == 0 {
					v.Value = "left"
				}
				ts.LabelValues = append(ts.LabelValues, v)
			}
			if !known.ok(m.Descriptor.Name, lm) {
				continue
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				*no++
				ts.Points = append(ts.Points, metricdata.NewInt64Point(time.Unix(int64(r.Intn(5)), 0), int64(*no)))
			}
			m.TimeSeries = append(m.TimeSeries, ts)
			ev = append(ev, M{"n": bs(m.Descriptor.Name), "l": l, "v": *no})
		}
		ms = append(ms, m)
	}
	return ms, ev
}

func body(r *rand.Rand, tr *vlib.Trace) {
	no := 0
	n := atomic.AddInt64(&traceNo, 1)
	mname := fmt.Sprintf("tm%d", n)
	ms := stats.Int64(mname, "", "1")
	keys := []tag.Key{tag.MustNewKey("k1"), tag.MustNewKey("k2")}
	v := &view.View{Measure: ms, TagKeys: keys, Aggregation: view.Sum()}
	if err := view.Register(v); err != nil {
		panic(err)
	}
	defer view.Unregister(v)
	p := &prod{}
	metricproducer.GlobalManager().AddProducer(p)
	defer metricproducer.GlobalManager().DeleteProducer(p)
	x := mtest.NewExporter(metricexport.NewReader())
	type id struct {
		n string
		l map[string]string
	}
	var ids []id
	known := make(idTexts)
	add := func(ds []*metricdata.Metric) {
		for _, m := range ds {
			for _, ts := range m.TimeSeries {
				i := id{m.Descriptor.Name, map[string]string{}}
				for j, k := range m.Descriptor.LabelKeys {
					if ts.LabelValues[j].Present {
						i.l[k.Key] = ts.LabelValues[j].Value
					}
				}
				ids = append(ids, i)
			}
		}
	}
	get := func(i id) {
		if !known.ok(i.n, i.l) {
			return
		}
		l := [][]interface{}{}
		for k, v := range i.l {
			l = append(l, []interface{}{bs(k), bs(v)})
		}
		pt, ok := x.GetPoint(i.n, i.l)
		res := []int{}
		if ok {
			val, isInt := pt.Value.(int64)
			if !isInt {
				val = -1
			}
			res = append(res, int(val))
		}
		tr.Call("get", M{"n": bs(i.n), "l": l, "r": res})
	}
	for k := 4 + r.Intn(14); k > 0; k-- {
		switch r.Intn(8) {
		case 0, 1:
			ds, ev := data(r, &no, known)
			x.ExportMetrics(context.Background(), ds)
			tr.Call("export", M{"d": ev})
			add(ds)
		case 2:
			ds, ev := data(r, &no, known)
			p.ms = ds
			x.ReadAndExport()
			tr.Call("rae", M{"d": ev, "view": bs(mname)})
			add(ds)
		case 3, 4:
			var mu []tag.Mutator
			l := [][]interface{}{}
			i := id{mname, map[string]string{}}
			for _, q := range keys {
				if r.Intn(3) > 0 {
					val := []string{"a", "b", "ab", "a=b", "\""}[r.Intn(5)]
					mu = append(mu, tag.Upsert(q, val))
					l = append(l, []interface{}{bs(q.Name()), bs(val)})
					i.l[q.Name()] = val
				}
			}
			if !known.ok(mname, i.l) {
				break
			}
			c := 1 + r.Intn(5)
			stats.RecordWithTags(context.Background(), mu, ms.M(int64(c)))
			tr.Call("record", M{"l": l, "v": c})
			ids = append(ids, i)
		case 5:
			// identities that resemble others
			i := id{vlib.Pick(r, words), map[string]string{}}
			for j := r.Intn(3); j > 0; j-- {
				i.l[vlib.Pick(r, words)] = vlib.Pick(r, words)
			}
			get(i)
		default:
			if len(ids) > 0 {
				i := vlib.Pick(r, ids)
				if r.Intn(3) == 0 {
					j := id{i.n, map[string]string{}}
					for k, v := range i.l {
						// the boundary between key and value moved
						switch s := k + v; {
						case len(s) > 1 && r.Intn(2) == 0:
							c := 1 + r.Intn(len(s)-1)
							j.l[s[:c]] = s[c:]
						case len(v) > 0 && r.Intn(2) == 0:
						default:
							j.l[k] = v
						}
					}
					i = j
				}
				get(i)
			}
		}
	}
	for _, i := range ids {
		get(i)
	}
}

// TestTmet records an in-memory exporter.
func TestTmet(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { tr.Guard(0, func() { body(r, tr) }) })
}

// TestTmetRunTogether records the known finding: time series whose keys and values
// run together to the same text.
func TestTmetRunTogether(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		x := mtest.NewExporter(metricexport.NewReader())
		var ms []*metricdata.Metric
		ev := []M{}
		ls := []map[string]string{{"a": "bc"}, {"ab": "c"}}
		for i, l := range ls {
			for k, v := range l {
				ms = append(ms, &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: "m", LabelKeys: []metricdata.LabelKey{{Key: k}}}, TimeSeries: []*metricdata.TimeSeries{
					{LabelValues: []metricdata.LabelValue{metricdata.NewLabelValue(v)}, Points: []metricdata.Point{metricdata.NewInt64Point(time.Unix(1, 0), int64(i+1))}}}})
				ev = append(ev, M{"n": bs("m"), "l": [][]interface{}{{bs(k), bs(v)}}, "v": i + 1})
			}
		}
		x.ExportMetrics(context.Background(), ms)
		tr.Call("export", M{"d": ev})
		pt, ok := x.GetPoint("m", ls[0])
		res := []int{}
		if v, isInt := pt.Value.(int64); ok && isInt {
			res = append(res, int(v))
		}
		tr.Call("get", M{"n": bs("m"), "l": [][]interface{}{{bs("a"), bs("bc")}}, "r": res})
	})
}
