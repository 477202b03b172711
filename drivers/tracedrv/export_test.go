//go:build go1.25

package tracedrv

import (
	"context"
	"math/rand"
	"sync"
	"testing"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
)

type xp struct {
	id     int
	tr     *vlib.Trace
	spans  map[trace.SpanID]int
	nested int // 0 none, 1 unregister self, 2 register peer
	peer   trace.Exporter
	peerID int
	mu     sync.Mutex
	n      int
	val    bool // registered as a value
}

// vx is an exporter that is not a pointer.
type vx struct{ x *xp }

func (v vx) ExportSpan(sd *trace.SpanData) { v.x.ExportSpan(sd) }

func (x *xp) exporter() trace.Exporter {
	if x.val {
		return vx{x}
	}
	return x
}

// decorate gives the span something to tell: none of it has a say in the export.
func decorate(r *rand.Rand, sp *trace.Span) {
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(7) {
		case 0:
			sp.SetStatus(trace.Status{Code: int32(r.Intn(20) - 2), Message: "m"})
		case 1:
			sp.SetName([]string{"", "n", "m"}[r.Intn(3)])
		case 2:
			sp.AddAttributes(trace.BoolAttribute("b", r.Intn(2) == 0))
		case 3:
			sp.Annotate(nil, "a")
		case 4:
			sp.AddMessageSendEvent(1, 2, 3)
		case 5:
			sp.AddLink(trace.Link{Type: trace.LinkTypeParent})
		case 6:
			trace.StartSpan(trace.NewContext(context.Background(), sp), "n", trace.WithSampler(trace.NeverSample()))
		}
	}
}

func (x *xp) ExportSpan(sd *trace.SpanData) {
	s, ok := x.spans[sd.SpanID]
	if !ok {
		s = 99
	}
	x.tr.Add(vlib.M{"e": "del", "s": s, "x": x.id})
	if x.nested == 0 {
		return
	}
	x.mu.Lock()
	x.n++
	th := 100*x.id + x.n
	x.mu.Unlock()
	switch x.nested {
	case 1:
		x.tr.Inv(th, "unregister", vlib.M{"arg": x.id})
		trace.UnregisterExporter(x.exporter())
		x.tr.Ret(th, "unregister", nil)
	case 2:
		x.tr.Inv(th, "register", vlib.M{"arg": x.peerID})
		trace.RegisterExporter(x.peer)
		x.tr.Ret(th, "register", nil)
	}
}

type opn struct {
	op  string
	arg int
}

// TestExport: C03. Mode "seq": one thread; otherwise 2-3 threads.
func TestExport(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		nth := 2 + r.Intn(2)
		nops := 2 + r.Intn(3)
		if e.Mode == "seq" {
			nth, nops = 1, 6+r.Intn(10)
		}
		nsp := 1 + r.Intn(4)
		nx := 1 + r.Intn(3)
		ids := map[trace.SpanID]int{}
		spans := make([]*trace.Span, nsp+1)
		ctx := context.Background()
		store := r.Intn(3)
		defer func() { internal.LocalSpanStoreEnabled = false }()
		for s := 1; s <= nsp; s++ {
			internal.LocalSpanStoreEnabled = store == 1 || store == 2 && r.Intn(2) == 0
			name, kind := []string{"n", "n", "m", ""}[r.Intn(4)], trace.WithSpanKind(r.Intn(3))
			smp := r.Intn(5) != 0
			sam := trace.NeverSample()
			if smp {
				sam = trace.AlwaysSample()
			}
			c := context.Background()
			if r.Intn(2) == 0 {
				c = ctx
			}
			var sp *trace.Span
			if r.Intn(3) == 0 {
				ctx, sp = trace.StartSpanWithRemoteParent(c, name, trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}}, trace.WithSampler(sam), kind)
			} else {
				ctx, sp = trace.StartSpan(c, name, trace.WithSampler(sam), kind)
			}
			spans[s] = sp
			decorate(r, sp)
			ids[sp.SpanContext().SpanID] = s
			tr.Call("start", vlib.M{"s": s, "sampled": smp})
		}
		xs := make([]*xp, nx+1)
		for i := 1; i <= nx; i++ {
			xs[i] = &xp{id: i, tr: tr, spans: ids, val: r.Intn(3) == 0}
		}
		for i := 1; i <= nx; i++ {
			if r.Intn(3) == 0 {
				xs[i].nested = 1 + r.Intn(2)
			}
			j := 1 + i%nx
			xs[i].peer, xs[i].peerID = xs[j].exporter(), j
		}
		do := func(th int, o opn) {
			tr.Inv(th, o.op, vlib.M{"arg": o.arg})
			switch o.op {
			case "register":
				trace.RegisterExporter(xs[o.arg].exporter())
			case "unregister":
				trace.UnregisterExporter(xs[o.arg].exporter())
			case "end":
				spans[o.arg].End()
			}
			tr.Ret(th, o.op, nil)
		}
		gen := func() opn {
			switch r.Intn(7) {
			case 0, 1:
				return opn{"register", 1 + r.Intn(nx)}
			case 2:
				return opn{"unregister", 1 + r.Intn(nx)}
			default:
				return opn{"end", 1 + r.Intn(nsp)}
			}
		}
		if r.Intn(3) == 0 {
			internal.LocalSpanStoreEnabled = r.Intn(2) == 0
		}
		for i := 1; i <= nx; i++ {
			if r.Intn(2) == 0 {
				do(1, opn{"register", i})
			}
		}
		prog := make([][]opn, nth+1)
		for th := 1; th <= nth; th++ {
			for k := 0; k < nops; k++ {
				prog[th] = append(prog[th], gen())
			}
		}
		vlib.Par(tr, nth, func(th int) {
			for _, o := range prog[th] {
				do(th, o)
			}
		})
		// quiescent probe: a fresh span must reach exactly the registered set
		probe := nsp + 1
		_, sp := trace.StartSpan(context.Background(), "probe", trace.WithSampler(trace.AlwaysSample()))
		for i := 1; i <= nx; i++ {
			xs[i].nested = 0
		}
		ids[sp.SpanContext().SpanID] = probe
		spans = append(spans, sp)
		tr.Call("start", vlib.M{"s": probe, "sampled": true})
		do(1, opn{"end", probe})
		for i := 1; i <= nx; i++ {
			trace.UnregisterExporter(xs[i].exporter())
		}
	})
}
