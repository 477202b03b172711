//go:build go1.25

package tracedrv

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
)

func kvs(m map[string]interface{}) [][]string {
	out := [][]string{}
	for k, v := range m {
		out = append(out, []string{k, fmt.Sprintf("%T:%v", v, v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

// project renders the content of a SpanData.
func project(d *trace.SpanData) vlib.M {
	anns, msgs, links := []interface{}{}, []interface{}{}, []interface{}{}
	for _, a := range d.Annotations {
		anns = append(anns, vlib.M{"m": a.Message, "a": kvs(a.Attributes)})
	}
	for _, m := range d.MessageEvents {
		msgs = append(msgs, []int64{int64(m.EventType), m.MessageID, m.UncompressedByteSize, m.CompressedByteSize})
	}
	for _, l := range d.Links {
		links = append(links, vlib.M{"t": int(l.TraceID[0]), "s": int(l.SpanID[0]), "y": int(l.Type), "a": kvs(l.Attributes)})
	}
	return vlib.M{"name": d.Name, "kind": d.SpanKind, "code": d.Status.Code, "smsg": d.Status.Message, "child": d.ChildSpanCount,
		"attrs": kvs(d.Attributes), "anns": anns, "msgs": msgs, "links": links,
		"da": d.DroppedAttributeCount, "dn": d.DroppedAnnotationCount, "dm": d.DroppedMessageEventCount, "dl": d.DroppedLinkCount}
}

type contentExp struct {
	tr   *vlib.Trace
	mu   sync.Mutex
	ids  map[trace.SpanID]int
	keep map[int]*trace.SpanData
	t0   time.Time
}

func (x *contentExp) ExportSpan(d *trace.SpanData) {
	x.mu.Lock()
	s, ok := x.ids[d.SpanID]
	x.mu.Unlock()
	if !ok {
		return
	}
	x.tr.Add(vlib.M{"e": "del", "op": "deliver", "s": s, "c": project(d),
		"timeok": !d.EndTime.Before(d.StartTime) && !d.StartTime.Before(x.t0) && !d.EndTime.After(time.Now())})
	x.mu.Lock()
	x.keep[s] = d
	x.mu.Unlock()
}

func attr(r *rand.Rand, nkeys int) (trace.Attribute, []string) {
	k := fmt.Sprintf("k%d", r.Intn(nkeys))
	if k == "k2" {
		k = ""
	}
	switch r.Intn(4) {
	case 0:
		v := []int64{0, 1, 2, 3, -1, 1<<63 - 1}[r.Intn(6)]
		return trace.Int64Attribute(k, v), []string{k, fmt.Sprintf("%T:%v", v, v)}
	case 1:
		v := []string{"", "v", "v1", " v", "\u00e9"}[r.Intn(5)]
		return trace.StringAttribute(k, v), []string{k, fmt.Sprintf("%T:%v", v, v)}
	case 2:
		v := r.Intn(2) == 0
		return trace.BoolAttribute(k, v), []string{k, fmt.Sprintf("%T:%v", v, v)}
	default:
		v := float64(r.Intn(5)) / 2
		return trace.Float64Attribute(k, v), []string{k, fmt.Sprintf("%T:%v", v, v)}
	}
}

func attrsN(r *rand.Rand, n, nkeys int) ([]trace.Attribute, [][]string) {
	as, out := []trace.Attribute{}, [][]string{}
	for ; n > 0; n-- {
		a, kv := attr(r, nkeys)
		as, out = append(as, a), append(out, kv)
	}
	return as, out
}

// lastPerKey is the map built from an attribute list.
func lastPerKey(in [][]string) [][]string {
	m := map[string]string{}
	for _, kv := range in {
		m[kv[0]] = kv[1]
	}
	out := [][]string{}
	for k, v := range m {
		out = append(out, []string{k, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

// TestContent: C04. Mode "seq": one thread, long histories.
func TestContent(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		x := &contentExp{tr: tr, ids: map[trace.SpanID]int{}, keep: map[int]*trace.SpanData{}, t0: time.Now().Add(-time.Second)}
		trace.RegisterExporter(x)
		defer trace.UnregisterExporter(x)
		internal.LocalSpanStoreEnabled = r.Intn(3) > 0
		defer func() { internal.LocalSpanStoreEnabled = false }()
		nth, nops := 2+r.Intn(2), 3+r.Intn(2)
		if e.Mode == "seq" {
			nth, nops = 1, 15+r.Intn(40)
		}
		nsp := 1 + r.Intn(2)
		type one struct {
			s   *trace.Span
			ctx context.Context
			nm  string
		}
		sp := make([]one, nsp+1)
		for s := 1; s <= nsp; s++ {
			la, ln, lm, ll := 1+r.Intn(4), 1+r.Intn(4), 1+r.Intn(4), 1+r.Intn(4)
			trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: la, MaxAnnotationEventsPerSpan: ln, MaxMessageEventsPerSpan: lm, MaxLinksPerSpan: ll})
			kind := r.Intn(3)
			nm := fmt.Sprintf("c%d", s)
			sam := trace.AlwaysSample()
			if internal.LocalSpanStoreEnabled && r.Intn(4) == 0 { // recording, but for the store alone
				sam = trace.NeverSample()
			}
			ctx, span := trace.StartSpan(context.Background(), nm, trace.WithSampler(sam), trace.WithSpanKind(kind))
			x.ids[span.SpanContext().SpanID] = s
			sp[s] = one{span, ctx, nm}
			tr.Call("start", vlib.M{"s": s, "name": nm, "kind": kind, "la": la, "ln": ln, "lm": lm, "ll": ll})
		}
		// limits of running spans do not follow later configurations
		trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: 1 + r.Intn(9), MaxAnnotationEventsPerSpan: 1 + r.Intn(9), MaxMessageEventsPerSpan: 1 + r.Intn(9), MaxLinksPerSpan: 1 + r.Intn(9)})
		nkeys := 2 + r.Intn(6)
		do := func(r *rand.Rand, th int, allowEnd bool) {
			s := 1 + r.Intn(nsp)
			o := sp[s]
			q := r.Intn(24)
			if !allowEnd && q == 0 {
				q = 1
			}
			ev := func(op string, m vlib.M) {
				m["s"] = s
				tr.Inv(th, op, m)
			}
			ret := func(op string) { tr.Ret(th, op, nil) }
			switch {
			case q == 0:
				ev("end", vlib.M{})
				o.s.End()
				ret("end")
			case q < 3:
				n := []string{"", "name1", "name2", o.nm}[r.Intn(4)]
				ev("setname", vlib.M{"name": n})
				o.s.SetName(n)
				ret("setname")
			case q < 5:
				c, m := []int32{0, 0, 1, 2, 3, -1, 17, 1000}[r.Intn(8)], []string{"", "m1", "m2"}[r.Intn(3)]
				ev("setstatus", vlib.M{"code": c, "smsg": m})
				o.s.SetStatus(trace.Status{Code: c, Message: m})
				ret("setstatus")
			case q < 11:
				as, l := attrsN(r, []int{0, 1, 1, 1, 2, 3, 6}[r.Intn(7)], nkeys)
				ev("attrs", vlib.M{"kvs": l})
				o.s.AddAttributes(as...)
				for i := range as {
					as[i] = trace.StringAttribute("reused", "slice")
				}
				ret("attrs")
			case q < 14:
				as, l := attrsN(r, r.Intn(3), nkeys)
				n := r.Intn(9)
				m := fmt.Sprintf("a%d-%s", n, "z")
				plain := r.Intn(2) == 0
				if plain && n == 0 {
					m = ""
				} else if plain && n == 1 {
					m = "100%d %"
				}
				ev("annotate", vlib.M{"v": vlib.M{"m": m, "a": lastPerKey(l)}})
				if len(as) == 0 && r.Intn(2) == 0 {
					as = nil
				}
				if plain {
					o.s.Annotate(as, m)
				} else {
					o.s.Annotatef(as, "a%d-%s", n, "z")
				}
				for i := range as {
					as[i] = trace.StringAttribute("reused", "slice")
				}
				ret("annotate")
			case q < 17:
				id, u, c := int64(r.Intn(9)-2), int64(r.Intn(9)-2), int64(r.Intn(9)-2)
				if r.Intn(2) == 0 {
					ev("message", vlib.M{"v": []int64{int64(trace.MessageEventTypeSent), id, u, c}})
					o.s.AddMessageSendEvent(id, u, c)
				} else {
					ev("message", vlib.M{"v": []int64{int64(trace.MessageEventTypeRecv), id, u, c}})
					o.s.AddMessageReceiveEvent(id, u, c)
				}
				ret("message")
			case q < 19:
				l := trace.Link{TraceID: trace.TraceID{byte(r.Intn(9))}, SpanID: trace.SpanID{byte(r.Intn(9))}, Type: trace.LinkType(r.Intn(3))}
				if r.Intn(2) == 0 {
					l.Attributes = map[string]interface{}{"la": int64(r.Intn(3))}
				}
				ev("link", vlib.M{"v": vlib.M{"t": int(l.TraceID[0]), "s": int(l.SpanID[0]), "y": int(l.Type), "a": kvs(l.Attributes)}})
				o.s.AddLink(l)
				ret("link")
			case q < 21:
				ev("child", vlib.M{})
				if r.Intn(3) == 0 {
					trace.StartSpan(o.ctx, "kid", trace.WithSampler(trace.NeverSample()))
				} else {
					trace.StartSpan(o.ctx, "kid")
				}
				ret("child")
			case q < 22:
				ev("noop", vlib.M{})
				_ = o.s.String()
				o.s.SpanContext()
				trace.StartSpanWithRemoteParent(o.ctx, "notkid", o.s.SpanContext(), trace.WithSampler(trace.NeverSample()))
				ret("noop")
			default:
				if !internal.LocalSpanStoreEnabled {
					return
				}
				ev("observe", vlib.M{})
				ds := internal.Trace.(active).ReportActiveSpans(o.nm)
				m := vlib.M{"present": false, "s": s}
				for _, d := range ds {
					if d.SpanID == o.s.SpanContext().SpanID {
						m["present"], m["c"] = true, project(d)
					}
				}
				tr.Ret(th, "observe", m)
			}
		}
		seeds := make([]int64, nth+1)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		endFrom := r.Intn(nops + 1)
		vlib.Par(tr, nth, func(th int) {
			r := rand.New(rand.NewSource(seeds[th]))
			for k := 0; k < nops; k++ {
				do(r, th, k >= endFrom && (e.Mode != "seq" || r.Intn(4) == 0))
			}
		})
		for s := 1; s <= nsp; s++ {
			tr.Inv(1, "end", vlib.M{"s": s})
			sp[s].s.End()
			tr.Ret(1, "end", nil)
		}
		// after the end: recording more must not change what was delivered
		for k := 0; k < 6; k++ {
			do(r, 1, true)
		}
		for s := 1; s <= nsp; s++ {
			if d := x.keep[s]; d != nil {
				tr.Call("reread", vlib.M{"s": s, "c": project(d)})
			}
			if internal.LocalSpanStoreEnabled { // what the store kept of it, if it did
				st := internal.Trace.(interface {
					ReportSpansByError(name string, code int32) []*trace.SpanData
					ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
				})
				for _, d := range append(st.ReportSpansByError(sp[s].nm, 0), st.ReportSpansByLatency(sp[s].nm, 0, 0)...) {
					if d.SpanID == sp[s].s.SpanContext().SpanID {
						tr.Call("reread", vlib.M{"s": s, "c": project(d)})
					}
				}
			}
		}
		// nil and non-recording spans
		internal.LocalSpanStoreEnabled = false
		_, ns := trace.StartSpan(context.Background(), "u", trace.WithSampler(trace.NeverSample()))
		for _, s := range []*trace.Span{nil, ns, trace.FromContext(context.Background())} {
			s.SetName("x")
			s.SetStatus(trace.Status{Code: 1})
			s.AddAttributes(trace.BoolAttribute("a", true))
			s.Annotate(nil, "x")
			s.Annotatef(nil, "x")
			s.AddMessageSendEvent(1, 2, 3)
			s.AddMessageReceiveEvent(1, 2, 3)
			s.AddLink(trace.Link{})
			_ = s.String()
			_ = s.SpanContext()
			_ = s.IsRecordingEvents()
			s.End()
		}
		tr.Call("noop", nil)
	})
}
