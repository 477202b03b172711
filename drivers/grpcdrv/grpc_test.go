//go:build go1.25

// Package grpcdrv drives the gRPC instrumentation.
package grpcdrv

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
)

type M = vlib.M

const traceKey = "grpc-trace-bin"

var (
	u1 = tag.MustNewKey("u1")
	u2 = tag.MustNewKey("u2")
)

// world is what the RPCs of one trace share
type world struct {
	tr     *vlib.Trace
	t0     time.Time
	tids   vlib.Intern[trace.TraceID]
	sids   vlib.Intern[trace.SpanID]
	live   bool
	def    int
	mu     sync.Mutex
	exps   map[trace.SpanID][]M
	n      int
	calls  int64
	ids    int64
	client *ocgrpc.ClientHandler
	server *ocgrpc.ServerHandler
	copt   int
	sopt   int
	rpcs   []*call
	ask    chan bool
	did    chan bool
	nost   bool // errors without a status were used
}

func (w *world) at() int {
	if w.live {
		return 0
	}
	return int(time.Since(w.t0) / time.Millisecond)
}

func (w *world) sc(sc trace.SpanContext) M {
	m := M{"t": 0, "s": 0, "smp": sc.IsSampled()}
	if sc.TraceID != (trace.TraceID{}) {
		m["t"] = w.tids.ID(sc.TraceID)
	}
	if sc.SpanID != (trace.SpanID{}) {
		m["s"] = w.sids.ID(sc.SpanID)
	}
	return m
}

// ExportSpan keeps a span that ended.
func (w *world) ExportSpan(s *trace.SpanData) {
	if s.Name == "local" {
		return
	}
	e := w.sc(s.SpanContext)
	e["p"] = 0
	if s.ParentSpanID != (trace.SpanID{}) {
		e["p"] = w.sids.ID(s.ParentSpanID)
	}
	links, evs, at := []M{}, [][]int{}, [][]interface{}{}
	for _, l := range s.Links {
		links = append(links, w.sc(trace.SpanContext{TraceID: l.TraceID, SpanID: l.SpanID}))
	}
	for _, x := range s.MessageEvents {
		evs = append(evs, []int{int(x.EventType), int(x.UncompressedByteSize), int(x.CompressedByteSize)})
	}
	for k, v := range s.Attributes {
		at = append(at, []interface{}{k, v})
	}
	e["rem"], e["kind"], e["name"], e["links"], e["code"], e["msg"], e["attrs"], e["evs"] = s.HasRemoteParent, s.SpanKind, s.Name, links, s.Code, s.Message, at, evs
	e["from"], e["to"] = 0, 0
	if !w.live {
		e["from"], e["to"] = int(s.StartTime.Sub(w.t0)/time.Millisecond), int(s.EndTime.Sub(w.t0)/time.Millisecond)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	w.exps[s.SpanID] = append(w.exps[s.SpanID], e)
}

func sampler(i int) trace.Sampler {
	switch i {
	case 1:
		return trace.AlwaysSample()
	case 2:
		return trace.NeverSample()
	case 3:
		return trace.ProbabilitySampler(0)
	}
	return nil
}

func randSC(r *rand.Rand) trace.SpanContext {
	sc := trace.SpanContext{TraceOptions: trace.TraceOptions(r.Intn(2))}
	r.Read(sc.TraceID[:])
	r.Read(sc.SpanID[:])
	sc.TraceID[0] |= 1
	sc.SpanID[0] |= 1
	return sc
}

// pairs lists the tags that are propagated.
func pairs(m *tag.Map) [][]string {
	if m == nil {
		return [][]string{}
	}
	d, err := tag.Decode(tag.Encode(m))
	if err != nil {
		panic(err)
	}
	return all(d)
}

// all lists the tags.
func all(m *tag.Map) [][]string {
	out := [][]string{}
	if m == nil {
		return out
	}
	for _, n := range []string{"u1", "u2", "grpc_client_method", "grpc_client_status", "grpc_server_method", "grpc_server_status"} {
		if v, ok := m.Value(tag.MustNewKey(n)); ok {
			out = append(out, []string{n, v})
		}
	}
	return out
}

// call is one side of an RPC
type call struct {
	w      *world
	id     int
	client bool
	ctx    context.Context
	sid    trace.SpanID
	ff     bool
	over   atomic.Bool
	method string
	begin  time.Time
}

// expect is what the driver knows of the context that is tagged
type expect struct {
	remote trace.SpanContext
	local  trace.SpanContext
	cid    int
	tags   [][]string // of the caller, or of the payload
	ptags  [][]string
	ff     bool
}

func (w *world) tagRPC(ctx context.Context, client bool, method string, x expect) *call {
	c := &call{w: w, id: int(atomic.AddInt64(&w.ids, 1)), client: client, ff: x.ff, method: method}
	e := M{"id": c.id, "client": client, "method": strings.TrimLeft(method, "/"), "name": strings.Replace(strings.TrimPrefix(method, "/"), "/", ".", -1),
		"remote": w.sc(x.remote), "local": w.sc(x.local), "cid": x.cid, "def": w.def, "tags": x.tags, "ptags": x.ptags, "live": w.live, "ff": x.ff, "at": w.at()}
	before, _ := metadata.FromOutgoingContext(ctx)
	before = before.Copy()
	in, _ := metadata.FromIncomingContext(ctx)
	in = in.Copy()
	info := &gstats.RPCTagInfo{FullMethodName: method, FailFast: x.ff}
	kept := true
	if client {
		c.ctx = w.client.TagRPC(ctx, info)
		e["public"], e["opt"] = false, w.copt
	} else {
		c.ctx = w.server.TagRPC(ctx, info)
		e["public"], e["opt"] = w.server.IsPublicEndpoint, w.sopt
	}
	span := trace.FromContext(c.ctx)
	if span == nil {
		span = &trace.Span{}
	}
	for k, v := range w.sc(span.SpanContext()) {
		e[k] = v
	}
	c.sid = span.SpanContext().SpanID
	// the caller's metadata are as they were, other metadata are kept
	after, _ := metadata.FromOutgoingContext(ctx)
	in2, _ := metadata.FromIncomingContext(ctx)
	kept = kept && eqMD(after, before) && eqMD(in, in2)
	out, _ := metadata.FromOutgoingContext(c.ctx)
	md := []M{}
	for _, v := range out[traceKey] {
		sc, _ := propagation.FromBinary([]byte(v))
		md = append(md, w.sc(sc))
	}
	o2 := out.Copy()
	if client {
		delete(o2, traceKey)
		delete(before, traceKey)
	}
	kept = kept && eqMD(o2, before)
	pay := [][]string{}
	if b := gstats.OutgoingTags(c.ctx); client && b != nil {
		m, err := tag.Decode(b)
		if err != nil {
			pay = append(pay, []string{"error", err.Error()}, []string{"", ""})
		} else {
			pay = pairs(m)
		}
	}
	e["md"], e["pay"], e["ctags"], e["kept"] = md, pay, all(tag.FromContext(c.ctx)), kept
	if info.FullMethodName != method || info.FailFast != x.ff {
		e["kept"] = false
	}
	w.tr.Call("tag", e)
	w.mu.Lock()
	w.rpcs = append(w.rpcs, c)
	w.mu.Unlock()
	return c
}

func eqMD(a, b metadata.MD) bool { return len(a) == 0 && len(b) == 0 || fmt.Sprint(a) == fmt.Sprint(b) }

// handle reports s
func (c *call) handle(s gstats.RPCStats) {
	w := c.w
	th := int(atomic.AddInt64(&w.calls, 1))
	m := M{"id": c.id}
	op := "other"
	switch x := s.(type) {
	case *gstats.Begin:
		op = "begin"
	case *gstats.InPayload:
		op = "in"
		m["n"], m["w"] = x.Length, x.WireLength
	case *gstats.OutPayload:
		op = "out"
		m["n"], m["w"] = x.Length, x.WireLength
	case *gstats.End:
		op = "end"
		m["code"], m["msg"] = 0, ""
		if x.Error != nil {
			if st, ok := status.FromError(x.Error); ok {
				m["code"], m["msg"] = int(st.Code()), st.Message()
			} else {
				m["code"], m["msg"] = -1, x.Error.Error()
				w.mu.Lock()
				w.nost = true
				w.mu.Unlock()
			}
		}
	}
	m["at"] = w.at()
	late := op == "end" || c.over.Load()
	w.tr.Inv(th, op, m)
	if c.client {
		w.client.HandleRPC(c.ctx, s)
	} else {
		w.server.HandleRPC(c.ctx, s)
	}
	m = M{}
	if op == "end" {
		c.over.Store(true)
	}
	if late {
		m["exps"] = w.of(c)
	}
	w.tr.Ret(th, op, m)
}

func (w *world) of(c *call) []M {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]M{}, w.exps[c.sid]...)
}

// grpcErr is an error with a status.
type grpcErr struct{ s *status.Status }

func (e grpcErr) Error() string              { return "a wrapper" }
func (e grpcErr) GRPCStatus() *status.Status { return e.s }

func (c *call) err(r *rand.Rand) error {
	code := codes.Code(r.Intn(17))
	msg := vlib.Pick(r, []string{"", "msg", "desc = x"})
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return nil
	case 4, 5, 6:
		return status.Error(code, msg)
	case 7:
		return grpcErr{status.New(vlib.Pick(r, []codes.Code{code, 17, 42, 0}), msg)}
	}
	if r.Intn(10) > 0 {
		return status.Errorf(codes.Unavailable, "transport is closing")
	}
	return errors.New("plain")
}

func (c *call) size(r *rand.Rand) int { return vlib.Pick(r, []int{0, 1, 2, 100, 1023, 70000, 5 << 20}) }

func (c *call) msg(r *rand.Rand, out bool) {
	n := c.size(r)
	if out {
		c.handle(&gstats.OutPayload{Client: c.client, Length: n, WireLength: n + vlib.Pick(r, []int{0, 5, -n}), Data: nil})
	} else {
		c.handle(&gstats.InPayload{Client: c.client, Length: n, WireLength: n + vlib.Pick(r, []int{0, 5, -n})})
	}
}

func (c *call) other(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		c.handle(&gstats.OutHeader{Client: c.client})
	case 1:
		c.handle(&gstats.InHeader{Client: c.client, WireLength: 7})
	case 2:
		c.handle(&gstats.InTrailer{Client: c.client, WireLength: 9})
	case 3:
		c.handle(&gstats.OutTrailer{Client: c.client, WireLength: 9})
	}
}

// steps is the life of an RPC, as a list of steps
func (c *call) steps(r *rand.Rand) []func() {
	s := []func(){func() {
		c.begin = time.Now()
		c.handle(&gstats.Begin{Client: c.client, FailFast: c.ff, BeginTime: c.begin})
	}}
	if r.Intn(12) == 0 {
		s = nil
	}
	for k := vlib.Pick(r, []int{0, 1, 2, 2, 3, 6, 12}); k > 0; k-- {
		switch r.Intn(7) {
		case 0:
			s = append(s, func() { c.other(r) })
		case 1:
			s = append(s, func() { c.pause(r) })
		case 2:
			if !c.w.live { // sent and received at the same time
				s = append(s, func() {
					var wg sync.WaitGroup
					q := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						c.msg(q, true)
						c.msg(q, q.Intn(4) > 0)
					}()
					c.msg(r, false)
					c.msg(r, r.Intn(3) == 0)
					wg.Wait()
				})
			}
		case 3, 4:
			s = append(s, func() { c.msg(r, true) })
		default:
			s = append(s, func() { c.msg(r, false) })
		}
	}
	if r.Intn(10) > 0 {
		s = append(s, func() {
			c.pause(r)
			c.handle(&gstats.End{Client: c.client, Error: c.err(r), BeginTime: c.begin, EndTime: time.Now()})
		})
		for k := vlib.Pick(r, []int{0, 0, 0, 1, 2}); k > 0; k-- {
			s = append(s, func() { c.msg(r, r.Intn(2) == 0) })
		}
	}
	return s
}

func (c *call) pause(r *rand.Rand) {
	if !c.w.live {
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
}

var methods = []string{"/a.S/M1", "/a.S/M2", "/pkg.Svc/Get", "noslash", "/x", "//a.S/M1"}

// caller makes the context of a client's caller
func (w *world) caller(r *rand.Rand, from *call) (context.Context, expect, func()) {
	ctx, x, end := context.Background(), expect{tags: [][]string{}, ptags: [][]string{}, ff: r.Intn(2) == 0}, func() {}
	if from != nil {
		ctx = from.ctx
		x.local = trace.FromContext(ctx).SpanContext()
		x.tags, x.ptags = all(tag.FromContext(ctx)), pairs(tag.FromContext(ctx))
		if in, ok := metadata.FromIncomingContext(ctx); ok && r.Intn(2) == 0 {
			ctx = metadata.NewOutgoingContext(ctx, in.Copy())
		}
	} else {
		if r.Intn(2) == 0 {
			var sp *trace.Span
			ctx, sp = trace.StartSpanWithRemoteParent(ctx, "local", randSC(r), trace.WithSampler(sampler(1+r.Intn(2))))
			x.local, end = sp.SpanContext(), sp.End
		}
		switch r.Intn(4) {
		case 0:
			ctx = metadata.AppendToOutgoingContext(ctx, "k", "v", "k", "v2")
		case 1:
			ctx = metadata.AppendToOutgoingContext(ctx, traceKey, string(propagation.Binary(randSC(r))), "k", "v")
			if r.Intn(2) == 0 {
				ctx = metadata.AppendToOutgoingContext(ctx, traceKey, string(propagation.Binary(randSC(r))))
			}
		}
	}
	if r.Intn(2) == 0 {
		nop := r.Intn(3) == 0
		v := vlib.Pick(r, []string{"v", "w", ""})
		ttl := tag.WithTTL(tag.TTLUnlimitedPropagation)
		if nop {
			ttl = tag.WithTTL(tag.TTLNoPropagation)
		}
		ctx, _ = tag.New(ctx, tag.Upsert(u1, v, ttl))
		if r.Intn(3) == 0 {
			k := vlib.Pick(r, []string{"grpc_client_method", "grpc_server_method", "u2", "grpc_client_status", "grpc_server_status"})
			ctx, _ = tag.New(ctx, tag.Upsert(tag.MustNewKey(k), "mine"))
			x.ptags, x.tags = put(x.ptags, k, "mine"), put(x.tags, k, "mine")
		}
		x.tags = put(x.tags, "u1", v)
		if nop {
			x.ptags = drop(x.ptags, "u1")
		} else {
			x.ptags = put(x.ptags, "u1", v)
		}
	}
	return ctx, x, end
}

func drop(q [][]string, k string) [][]string {
	out := [][]string{}
	for _, p := range q {
		if p[0] != k {
			out = append(out, p)
		}
	}
	return out
}
func put(q [][]string, k, v string) [][]string { return append(drop(q, k), []string{k, v}) }

// incoming makes the context of a server; from is the client whose RPC it is, or nil
func (w *world) incoming(r *rand.Rand, from *call) (context.Context, expect) {
	ctx, x := context.Background(), expect{tags: [][]string{}, ptags: [][]string{}, ff: r.Intn(2) == 0}
	if from != nil {
		md, _ := metadata.FromOutgoingContext(from.ctx)
		ctx = metadata.NewIncomingContext(ctx, md.Copy())
		x.cid = from.id
		if len(md[traceKey]) > 0 {
			x.remote, _ = propagation.FromBinary([]byte(md[traceKey][0]))
		}
		if b := gstats.OutgoingTags(from.ctx); b != nil {
			ctx = gstats.SetIncomingTags(ctx, b)
			if m, err := tag.Decode(b); err == nil {
				x.tags = pairs(m)
			}
		}
		return ctx, x
	}
	md := metadata.MD{}
	sc := randSC(r)
	b := propagation.Binary(sc)
	switch r.Intn(10) {
	case 0: // none
	case 1:
		md[traceKey] = []string{}
	case 2:
		md[traceKey] = []string{""}
	case 3: // too short for a trace ID
		md[traceKey] = []string{string(b[:r.Intn(18)])}
	case 4: // not this version
		b[0] = byte(1 + r.Intn(255))
		md[traceKey] = []string{string(b)}
	case 5: // no trace ID
		b[1] = byte(1 + r.Intn(255))
		md[traceKey] = []string{string(b)}
	case 6: // no span ID
		md[traceKey] = []string{string(b[:18+r.Intn(9)])}
		x.remote = trace.SpanContext{TraceID: sc.TraceID}
	case 7: // no options
		md[traceKey] = []string{string(b[:27+r.Intn(2)])}
		x.remote = trace.SpanContext{TraceID: sc.TraceID, SpanID: sc.SpanID}
	case 8:
		md[traceKey] = []string{string(append(b, 3, 1))}
		x.remote = sc
	default:
		md[traceKey] = []string{string(b)}
		x.remote = sc
	}
	md["k"] = []string{"v"}
	if r.Intn(12) > 0 {
		ctx = metadata.NewIncomingContext(ctx, md)
	} else {
		x.remote = trace.SpanContext{}
	}
	tc, _ := tag.New(context.Background(), tag.Insert(u1, vlib.Pick(r, []string{"x", "y"})), tag.Insert(tag.MustNewKey(vlib.Pick(r, []string{"u2", "grpc_server_method", "grpc_client_method", "grpc_server_status"})), "mine"))
	p := tag.Encode(tag.FromContext(tc))
	switch r.Intn(6) {
	case 0:
	case 1:
		ctx = gstats.SetIncomingTags(ctx, []byte{})
	case 2: // cut short
		ctx = gstats.SetIncomingTags(ctx, p[:len(p)-1-r.Intn(2)])
	case 3:
		p[0] = byte(1 + r.Intn(255))
		ctx = gstats.SetIncomingTags(ctx, p)
	default:
		ctx = gstats.SetIncomingTags(ctx, p)
		x.tags = pairs(tag.FromContext(tc))
	}
	return ctx, x
}

func (w *world) setup(r *rand.Rand) {
	w.t0 = time.Now()
	w.copt, w.sopt = r.Intn(4), r.Intn(4)
	kind := vlib.Pick(r, []int{0, trace.SpanKindClient, trace.SpanKindServer})
	w.client = &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: sampler(w.copt), SpanKind: kind}}
	w.server = &ocgrpc.ServerHandler{StartOptions: trace.StartOptions{Sampler: sampler(w.sopt), SpanKind: kind}, IsPublicEndpoint: r.Intn(3) == 0}
}

// one starts an RPC; prev are those it can belong to
func (w *world) one(r *rand.Rand, prev []*call) (*call, func()) {
	var from *call
	if len(prev) > 0 && r.Intn(3) > 0 {
		from = vlib.Pick(r, prev)
	}
	m := methods[r.Intn(len(methods))]
	if r.Intn(2) == 0 {
		m = methods[0]
	}
	client := r.Intn(2) == 0
	if from != nil {
		client = !from.client
		if !client {
			m = from.method
		}
	}
	if client {
		ctx, x, end := w.caller(r, from)
		return w.tagRPC(ctx, true, m, x), end
	}
	ctx, x := w.incoming(r, from)
	return w.tagRPC(ctx, false, m, x), func() {}
}

func (w *world) drive(r *rand.Rand) {
	w.setup(r)
	trace.RegisterExporter(w)
	defer trace.UnregisterExporter(w)
	n := 1 + r.Intn(5)
	if r.Intn(2) == 0 { // steps of RPCs one after another, in any order
		var cs []*call
		var queue [][]func()
		for len(cs) < n || len(queue) > 0 {
			if len(cs) < n && (len(queue) == 0 || r.Intn(4) == 0) {
				c, end := w.one(r, cs)
				cs = append(cs, c)
				queue = append(queue, append(c.steps(r), end))
				continue
			}
			i := r.Intn(len(queue))
			queue[i][0]()
			if queue[i] = queue[i][1:]; len(queue[i]) == 0 {
				queue = append(queue[:i], queue[i+1:]...)
			}
			if r.Intn(24) == 0 {
				w.views()
			}
		}
	} else {
		seeds := []int64{0}
		for id := 1; id <= n; id++ {
			seeds = append(seeds, r.Int63())
		}
		vlib.Par(w.tr, n, func(id int) {
			r := rand.New(rand.NewSource(seeds[id]))
			c, end := w.one(r, nil)
			if r.Intn(2) == 0 { // the other side
				d, end2 := w.one(r, []*call{c})
				for _, f := range d.steps(r) {
					f()
				}
				end2()
			}
			for _, f := range c.steps(r) {
				f()
			}
			end()
		})
	}
	w.finish()
}

func (w *world) finish() {
	w.views()
	w.mu.Lock()
	n := w.n
	w.mu.Unlock()
	w.tr.Call("done", M{"n": n})
}

// --- views ---

type vdef struct {
	v      *view.View
	client bool
	m      string
	ks     []string
	cnt    bool
}

var vdefs []vdef

func mkViews() {
	names := map[bool]map[string]stats.Measure{
		true: {"sn": ocgrpc.ClientSentMessagesPerRPC, "sb": ocgrpc.ClientSentBytesPerRPC, "rn": ocgrpc.ClientReceivedMessagesPerRPC, "rb": ocgrpc.ClientReceivedBytesPerRPC,
			"lat": ocgrpc.ClientRoundtripLatency, "begun": ocgrpc.ClientStartedRPCs},
		false: {"sn": ocgrpc.ServerSentMessagesPerRPC, "sb": ocgrpc.ServerSentBytesPerRPC, "rn": ocgrpc.ServerReceivedMessagesPerRPC, "rb": ocgrpc.ServerReceivedBytesPerRPC,
			"lat": ocgrpc.ServerLatency, "begun": ocgrpc.ServerStartedRPCs},
	}
	ms := []string{"sn", "sb", "rn", "rb", "lat", "begun"}
	for _, client := range []bool{true, false} {
		mk, sk := "grpc_server_method", "grpc_server_status"
		if client {
			mk, sk = "grpc_client_method", "grpc_client_status"
		}
		for _, m := range ms {
			ks := []string{mk, sk, "u1", "u2"}
			v := &view.View{Name: fmt.Sprint("zv", client, m), Measure: names[client][m], Aggregation: view.Distribution(0)}
			for _, k := range ks {
				v.TagKeys = append(v.TagKeys, tag.MustNewKey(k))
			}
			vdefs = append(vdefs, vdef{v, client, m, ks, false})
		}
		pre := map[*view.View]string{ocgrpc.ServerSentBytesPerRPCView: "sb", ocgrpc.ServerSentMessagesPerRPCView: "sn", ocgrpc.ServerReceivedBytesPerRPCView: "rb", ocgrpc.ServerReceivedMessagesPerRPCView: "rn",
			ocgrpc.ServerLatencyView: "lat"}
		started, done := ocgrpc.ServerStartedRPCsView, ocgrpc.ServerCompletedRPCsView
		if client {
			pre = map[*view.View]string{ocgrpc.ClientSentBytesPerRPCView: "sb", ocgrpc.ClientSentMessagesPerRPCView: "sn", ocgrpc.ClientReceivedBytesPerRPCView: "rb", ocgrpc.ClientReceivedMessagesPerRPCView: "rn",
				ocgrpc.ClientRoundtripLatencyView: "lat"}
			started, done = ocgrpc.ClientStartedRPCsView, ocgrpc.ClientCompletedRPCsView
		}
		for _, m := range ms {
			for v, x := range pre {
				if x == m {
					vdefs = append(vdefs, vdef{v, client, m, []string{mk}, false})
				}
			}
		}
		vdefs = append(vdefs, vdef{started, client, "begun", []string{mk}, true}, vdef{done, client, "lat", []string{mk, sk}, true})
	}
}

func register(on bool) {
	for _, d := range vdefs {
		if on {
			if err := view.Register(d.v); err != nil {
				panic(err)
			}
		} else {
			view.Unregister(d.v)
		}
	}
}

// reader reads views for goroutines in a bubble.
func (w *world) reader() {
	w.ask, w.did = make(chan bool), make(chan bool)
	go func() {
		for range w.ask {
			w.views1()
			w.did <- true
		}
	}()
}

func (w *world) views() {
	w.ask <- true
	<-w.did
}

func (w *world) views1() {
	w.mu.Lock()
	no := w.nost
	w.mu.Unlock()
	if no {
		return
	}
	out := []M{}
	for _, d := range vdefs {
		rows, err := view.RetrieveData(d.v.Name)
		if err != nil {
			panic(err)
		}
		rs := []M{}
		for _, row := range rows {
			k := make([]string, len(d.ks))
			for _, t := range row.Tags {
				for i, n := range d.ks {
					if t.Key.Name() == n {
						k[i] = t.Value
					}
				}
			}
			m := M{"k": k, "n": 0, "sum": 0, "att": []M{}}
			switch x := row.Data.(type) {
			case *view.DistributionData:
				m["n"], m["sum"] = int(x.Count), int(x.Sum()+0.5)
				at := []M{}
				for _, e := range x.ExemplarsPerBucket {
					if e != nil && len(x.ExemplarsPerBucket) == 1 {
						sc, _ := e.Attachments[metricdata.AttachmentKeySpanContext].(trace.SpanContext)
						at = append(at, w.sc(sc))
					}
				}
				m["att"] = at
			case *view.CountData:
				m["n"] = int(x.Value)
			}
			rs = append(rs, m)
		}
		out = append(out, M{"client": d.client, "m": d.m, "ks": d.ks, "cnt": d.cnt, "ex": strings.HasPrefix(d.v.Name, "zv"), "rows": rs})
	}
	w.tr.Call("views", M{"views": out, "live": w.live})
}

func newWorld(r *rand.Rand, tr *vlib.Trace) *world {
	return &world{tr: tr, def: 1 + r.Intn(3), exps: map[trace.SpanID][]M{}}
}

func TestRPC(t *testing.T) {
	e := vlib.Open(t)
	mkViews()
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := newWorld(r, tr)
		register(true)
		defer register(false)
		trace.ApplyConfig(trace.Config{DefaultSampler: sampler(w.def)})
		w.reader()
		defer close(w.ask)
		synctest.Test(t, func(*testing.T) { w.drive(r) })
	})
}
