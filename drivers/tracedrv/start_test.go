//go:build go1.25

package tracedrv

import (
	"context"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	rtrace "runtime/trace"
	"sync"
	"sync/atomic"
	"testing"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
)

// gen is a custom ID generator: its IDs carry its number.
type gen struct {
	id byte
	n  uint64
}

func (g *gen) NewTraceID() (t [16]byte) {
	n := atomic.AddUint64(&g.n, 1)
	t[0] = 0xE0 | g.id
	binary.BigEndian.PutUint64(t[8:], n)
	return
}
func (g *gen) NewSpanID() (s [8]byte) {
	n := atomic.AddUint64(&g.n, 1)
	binary.BigEndian.PutUint64(s[:], n)
	s[0] = 0xE0 | g.id
	return
}

type active interface {
	ReportActiveSpans(name string) []*trace.SpanData
}

// capture collects exported spans by span ID.
type capture struct {
	mu sync.Mutex
	m  map[trace.SpanID][]*trace.SpanData
}

func (c *capture) ExportSpan(s *trace.SpanData) {
	c.mu.Lock()
	c.m[s.SpanID] = append(c.m[s.SpanID], s)
	c.mu.Unlock()
}
func (c *capture) get(id trace.SpanID) []*trace.SpanData {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.m[id]
}

type asked struct {
	sampler int
	p       trace.SamplingParameters
	ans     bool
}

var testStates = func() []*tracestate.Tracestate {
	a, _ := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "1"})
	b, _ := tracestate.New(nil, tracestate.Entry{Key: "b", Value: "2"})
	return []*tracestate.Tracestate{nil, a, b}
}()

var gens = []*gen{nil, {id: 1}, {id: 2}, {id: 3}}

const fill = 6

// words is an entropy source whose first words are all the same.
type words struct {
	w uint64
	n int
	r io.Reader
}

func (w *words) Read(p []byte) (int, error) {
	if w.n >= 64 || len(p)%8 != 0 {
		return w.r.Read(p)
	}
	for i := range p {
		p[i] = byte(w.w >> (8 * (i % 8)))
	}
	w.n += len(p)
	return len(p), nil
}

// fixEntropy makes a sequence of IDs that starts at a random number x and goes on in
// steps of x|1, as the default generator's, reach zero among its first.
func fixEntropy(seed int64) func() {
	k := uint64(3 + 2*(seed&3)) // x+1 is the inverse of k modulo 2^64
	x := k
	for i := 0; i < 6; i++ {
		x *= 2 - k*x
	}
	old := crand.Reader
	crand.Reader = &words{w: x - 1, r: old}
	return func() { crand.Reader = old }
}

type ctxKey struct{}

// TestStart: C01, C02, C05. Mode "gen": custom ID generators are configured;
// mode "seq": one thread.
func TestStart(t *testing.T) {
	e := vlib.Open(t)
	custom := e.Mode == "gen"
	if !custom {
		defer fixEntropy(e.Seed)()
	}
	if e.Seed%4 == 1 { // while the program's execution is traced, spans are its tasks too
		if rtrace.Start(io.Discard) == nil {
			defer rtrace.Stop()
		}
	}
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		tids, sids := &vlib.Intern[trace.TraceID]{}, &vlib.Intern[trace.SpanID]{}
		tidOf := func(x trace.TraceID) int {
			if x == (trace.TraceID{}) {
				return 0
			}
			return tids.ID(x)
		}
		sidOf := func(x trace.SpanID) int {
			if x == (trace.SpanID{}) {
				return 0
			}
			return sids.ID(x)
		}
		tsOf := func(x *tracestate.Tracestate) int {
			for i, s := range testStates {
				if s == x {
					return i
				}
			}
			return 99
		}
		// samplers: log into a per-name slot, answer at random (decided beforehand)
		var mu sync.Mutex
		log := map[string][]asked{}
		answers := map[string]bool{}
		mk := func(id int) trace.Sampler {
			return func(p trace.SamplingParameters) trace.SamplingDecision {
				mu.Lock()
				defer mu.Unlock()
				a := answers[p.Name]
				log[p.Name] = append(log[p.Name], asked{id, p, a})
				return trace.SamplingDecision{Sample: a}
			}
		}
		samplers := []trace.Sampler{nil, mk(1), mk(2), mk(3)}
		optSamplers := []trace.Sampler{nil, mk(11), mk(12)}
		store := r.Intn(4) == 0
		internal.LocalSpanStoreEnabled = store
		defer func() { internal.LocalSpanStoreEnabled = false }()
		capt := &capture{m: map[trace.SpanID][]*trace.SpanData{}}
		trace.RegisterExporter(capt)
		defer trace.UnregisterExporter(capt)

		mkcfg := func(full bool) (trace.Config, vlib.M) {
			var c trace.Config
			m := vlib.M{"samp": 0, "gen": 0, "la": 0, "ln": 0, "lm": 0, "ll": 0}
			if full || r.Intn(2) == 0 {
				k := 1 + r.Intn(3)
				c.DefaultSampler = samplers[k]
				m["samp"] = k
			}
			if custom && (full || r.Intn(2) == 0) {
				k := 1 + r.Intn(3)
				c.IDGenerator = gens[k]
				m["gen"] = k
			}
			lim := func(name string, p *int) {
				if full {
					*p = 1 + r.Intn(4)
				} else {
					*p = r.Intn(7) - 2
				}
				if *p > 4 {
					*p = 0
				}
				m[name] = *p
			}
			lim("la", &c.MaxAttributesPerSpan)
			lim("ln", &c.MaxAnnotationEventsPerSpan)
			lim("lm", &c.MaxMessageEventsPerSpan)
			lim("ll", &c.MaxLinksPerSpan)
			return c, m
		}
		c0, m0 := mkcfg(true)
		trace.ApplyConfig(c0)
		m0["store"] = store
		m0["fill"] = fill
		tr.Call("init", m0)

		type sp struct {
			s   *trace.Span
			id  int
			nm  string
			end bool
		}
		var gmu sync.Mutex
		nctx, nspan, nname := 0, 0, 0
		next := func(p *int) int { gmu.Lock(); defer gmu.Unlock(); *p++; return *p }
		type cx struct {
			c  context.Context
			id int
		}
		root := cx{context.Background(), 0}
		genOf := func(b byte) int {
			if custom && b&0xE0 == 0xE0 {
				return int(b & 0x1F)
			}
			return 0
		}
		start := func(r *rand.Rand, th int, c cx) (cx, *sp) {
			nm := fmt.Sprintf("n%d", next(&nname))
			mu.Lock()
			answers[nm] = r.Intn(3) > 0
			ans := answers[nm]
			mu.Unlock()
			opts := []trace.StartOption{}
			o := 0
			switch r.Intn(6) {
			case 0, 1:
				o = 11 + r.Intn(2)
				opts = append(opts, trace.WithSampler(optSamplers[o-10]))
			case 2:
				opts = append(opts, trace.WithSampler(nil))
			case 3: // the last one given counts
				o = []int{0, 11, 12}[r.Intn(3)]
				opts = append(opts, trace.WithSampler(optSamplers[1+r.Intn(2)]), trace.WithSampler(nil))
				if o > 0 {
					opts = append(opts, trace.WithSampler(optSamplers[o-10]))
				}
			}
			if r.Intn(3) == 0 {
				opts = append(opts, trace.WithSpanKind(r.Intn(3)))
			}
			var par trace.SpanContext
			remote := r.Intn(3) == 0
			if remote && r.Intn(5) > 0 {
				par.TraceID = trace.TraceID{1, byte(r.Intn(3))}
				par.SpanID = trace.SpanID{2, byte(r.Intn(3))}
				par.TraceOptions = trace.TraceOptions(r.Intn(8))
				par.Tracestate = testStates[r.Intn(3)]
				if r.Intn(3) == 0 {
					par.TraceOptions |= trace.TraceOptions(r.Uint32()) &^ 1
				}
				switch r.Intn(12) { // contexts that are not complete, but not empty
				case 0:
					par.TraceID = trace.TraceID{}
				case 1:
					par.SpanID = trace.SpanID{}
				case 2:
					par = trace.SpanContext{Tracestate: par.Tracestate}
				case 3:
					par = trace.SpanContext{TraceOptions: par.TraceOptions}
				}
			}
			tr.Inv(th, "start", vlib.M{"ctx": c.id, "remote": remote, "opt": o, "ptid": tidOf(par.TraceID), "psid": sidOf(par.SpanID),
				"pbits": int(par.TraceOptions >> 1), "psamp": par.TraceOptions&1 == 1, "pts": tsOf(par.Tracestate)})
			var ctx context.Context
			var s *trace.Span
			if remote {
				ctx, s = trace.StartSpanWithRemoteParent(c.c, nm, par, opts...)
			} else {
				ctx, s = trace.StartSpan(c.c, nm, opts...)
			}
			sc := s.SpanContext()
			mu.Lock()
			as := []vlib.M{}
			for _, a := range log[nm] {
				pc := a.p.ParentContext
				as = append(as, vlib.M{"sampler": a.sampler, "tid": tidOf(a.p.TraceID), "sid": sidOf(a.p.SpanID), "remote": a.p.HasRemoteParent,
					"ptid": tidOf(pc.TraceID), "psid": sidOf(pc.SpanID), "pbits": int(pc.TraceOptions >> 1), "psamp": pc.TraceOptions&1 == 1, "pts": tsOf(pc.Tracestate)})
			}
			mu.Unlock()
			id := next(&nspan)
			nc := cx{ctx, next(&nctx)}
			tr.Ret(th, "start", vlib.M{"s": id, "nctx": nc.id, "tid": tidOf(sc.TraceID), "sid": sidOf(sc.SpanID), "bits": int(sc.TraceOptions >> 1),
				"samp": sc.IsSampled(), "ts": tsOf(sc.Tracestate), "rec": s.IsRecordingEvents(), "asked": as, "ans": ans,
				"sgen": genOf(sc.SpanID[0]), "tgen": genOf(sc.TraceID[0])})
			return nc, &sp{s: s, id: id, nm: nm}
		}
		cur := func(c cx, known map[*trace.Span]int) {
			s := trace.FromContext(c.c)
			id := 0
			if s != nil {
				id = known[s]
				if id == 0 {
					id = 98
				}
			}
			v, _ := c.c.Value(ctxKey{}).(int)
			tr.Call("cur", vlib.M{"ctx": c.id, "s": id, "v": v})
		}
		data := func(x *sp, ds []*trace.SpanData) {
			if !x.s.IsRecordingEvents() {
				tr.Call("norec", vlib.M{"s": x.id})
			}
			for _, d := range ds {
				if d.SpanID != x.s.SpanContext().SpanID && len(ds) > 1 {
					continue
				}
				tr.Call("data", vlib.M{"s": x.id, "tid": tidOf(d.TraceID), "sid": sidOf(d.SpanID), "parent": sidOf(d.ParentSpanID), "remote": d.HasRemoteParent,
					"bits": int(d.TraceOptions >> 1), "ts": tsOf(d.Tracestate), "samp": d.IsSampled(),
					"na": len(d.Attributes), "nn": len(d.Annotations), "nm": len(d.MessageEvents), "nl": len(d.Links)})
			}
		}
		finish := func(x *sp) {
			for i := 0; i < fill; i++ {
				x.s.AddAttributes(trace.Int64Attribute(fmt.Sprint("k", i), int64(i)))
				x.s.Annotate(nil, "x")
				x.s.AddMessageSendEvent(1, 1, 1)
				x.s.AddLink(trace.Link{})
			}
			if store {
				data(x, internal.Trace.(active).ReportActiveSpans(x.nm))
			}
			x.s.End()
			x.end = true
			data(x, capt.get(x.s.SpanContext().SpanID))
		}
		nth, nops := 1, 6+r.Intn(10)
		if e.Mode != "seq" && r.Intn(2) == 0 {
			nth, nops = 2+r.Intn(2), 3+r.Intn(2)
		}
		if e.Mode == "many" {
			nth, nops = 4, 60
		}
		var all []*sp
		shared := []cx{root}
		for i := r.Intn(3); i > 0; i-- {
			c, s := start(r, 1, vlib.Pick(r, shared))
			shared = append(shared, c)
			all = append(all, s)
		}
		seeds := make([]int64, nth+1)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		mine := make([][]*sp, nth+1)
		vlib.Par(tr, nth, func(th int) {
			r := rand.New(rand.NewSource(seeds[th]))
			ctxs := append([]cx{}, shared...)
			for k := 0; k < nops; k++ {
				switch q := r.Intn(10); {
				case q < 2 && e.Mode != "many":
					c, m := func() (trace.Config, vlib.M) { gmu.Lock(); defer gmu.Unlock(); return mkcfg(false) }()
					tr.Inv(th, "apply", m)
					trace.ApplyConfig(c)
					tr.Ret(th, "apply", nil)
				case q == 2:
					if len(mine[th]) > 0 {
						x := vlib.Pick(r, mine[th])
						c := vlib.Pick(r, ctxs)
						nc := cx{trace.NewContext(c.c, x.s), next(&nctx)}
						tr.Call("attach", vlib.M{"ctx": c.id, "nctx": nc.id, "s": x.id})
						ctxs = append(ctxs, nc)
					} else {
						c := vlib.Pick(r, ctxs)
						nc := cx{trace.NewContext(c.c, nil), next(&nctx)}
						tr.Call("attach", vlib.M{"ctx": c.id, "nctx": nc.id, "s": 0})
						ctxs = append(ctxs, nc)
					}
				case q == 4 && r.Intn(2) == 0 && e.Mode != "many": // the caller keeps something of its own in the context
					c := vlib.Pick(r, ctxs)
					nc := cx{context.WithValue(c.c, ctxKey{}, k+1), next(&nctx)}
					tr.Call("with", vlib.M{"ctx": c.id, "nctx": nc.id, "v": k + 1})
					ctxs = append(ctxs, nc)
				case q == 3 && len(mine[th]) > 0:
					x := vlib.Pick(r, mine[th])
					if !x.end {
						finish(x)
					}
				default:
					c, s := start(r, th, vlib.Pick(r, ctxs))
					ctxs = append(ctxs, c)
					mine[th] = append(mine[th], s)
				}
			}
			if th == 1 && nth == 1 {
				known := map[*trace.Span]int{}
				for _, x := range append(append([]*sp{}, all...), mine[th]...) {
					known[x.s] = x.id
				}
				for _, c := range ctxs {
					cur(c, known)
				}
			}
		})
		for _, m := range mine {
			all = append(all, m...)
		}
		if e.Mode != "many" {
			for _, x := range all {
				if !x.end {
					finish(x)
				}
			}
		}
		// one more sequential span shows the final configuration
		_, x := start(r, 1, root)
		finish(x)
	})
}

// TestProb: C02, the built-in probability sampler.
func TestProb(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		tr.Call("init", vlib.M{"samp": 1, "gen": 0, "la": 1, "ln": 1, "lm": 1, "ll": 1, "store": false, "fill": 1})
		const unit = 1 << 20
		for i := 0; i < 4; i++ {
			var id trace.TraceID
			r.Read(id[:])
			switch r.Intn(5) {
			case 0:
				id = trace.TraceID{}
				id[15] = 1
			case 1:
				for k := range id {
					id[k] = 255
				}
			case 2:
				for k := 0; k < 8; k++ {
					id[k] = 0
				}
			}
			fs := []int{-unit, -1, 0}
			x := 0
			for len(fs) < 24 {
				x += 1 + r.Intn(unit/11)
				if x > unit {
					break
				}
				fs = append(fs, x)
			}
			fs = append(fs, unit-1, unit, unit+1, 5*unit)
			for a := 1; a < len(fs); a++ {
				for b := a; b > 0 && fs[b] < fs[b-1]; b-- {
					fs[b], fs[b-1] = fs[b-1], fs[b]
				}
			}
			rung := func(p trace.SamplingParameters) []bool {
				out := []bool{}
				for _, f := range fs {
					out = append(out, trace.ProbabilitySampler(float64(f)/unit)(p).Sample)
				}
				return out
			}
			base := trace.SamplingParameters{TraceID: id, SpanID: trace.SpanID{1}, Name: "a"}
			vars := [][]bool{}
			for k := 0; k < 4; k++ {
				q := trace.SamplingParameters{TraceID: id, Name: fmt.Sprint("v", r.Int()), HasRemoteParent: r.Intn(2) == 0}
				r.Read(q.SpanID[:])
				if r.Intn(2) == 0 {
					r.Read(q.ParentContext.SpanID[:])
					q.ParentContext.TraceID = id
					q.ParentContext.TraceOptions = trace.TraceOptions(2 * r.Intn(4))
				}
				vars = append(vars, rung(q))
			}
			q := base
			q.ParentContext = trace.SpanContext{TraceID: id, SpanID: trace.SpanID{3}, TraceOptions: trace.TraceOptions(1 + 2*r.Intn(4))}
			q.HasRemoteParent = r.Intn(2) == 0
			tr.Call("prob", vlib.M{"unit": unit, "f": fs, "ans": rung(base), "var": vars, "par": rung(q)})
		}
		f := r.Intn(101)
		s := trace.ProbabilitySampler(float64(f) / 100)
		n, yes := 4000, 0
		for i := 0; i < n; i++ {
			var id trace.TraceID
			r.Read(id[:])
			if s(trace.SamplingParameters{TraceID: id}).Sample {
				yes++
			}
		}
		tr.Call("share", vlib.M{"f": f, "n": n, "yes": yes})
	})
}
