//go:build go1.25

package grpcdrv

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding"
	"google.golang.org/grpc/metadata"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
)

// raw carries messages that are byte slices
type raw struct{}

func (raw) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (raw) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (raw) Name() string { return "zvraw" }
func init()              { encoding.RegisterCodec(raw{}) }

type planKey struct{}
type callKey struct{}

// plan is what the driver wants of one RPC
type plan struct {
	x      expect
	method string
	call   *call // of the client
	rounds int
	serr   error
	block  bool // the server waits for the end of its context
	sizes  []int
}

// book finds the plans by the number that travels in the metadata
type book struct {
	w     *world
	mu    sync.Mutex
	plans map[string]*plan
}

func (b *book) get(md metadata.MD) *plan {
	b.mu.Lock()
	defer b.mu.Unlock()
	if v := md["zz-id"]; len(v) > 0 {
		return b.plans[v[0]]
	}
	return nil
}

// wrap hands the calls of grpc to the handlers, and records them
type wrap struct {
	*book
	client bool
}

func (h wrap) TagConn(ctx context.Context, _ *gstats.ConnTagInfo) context.Context { return ctx }
func (h wrap) HandleConn(context.Context, gstats.ConnStats)                       {}
func (h wrap) TagRPC(ctx context.Context, info *gstats.RPCTagInfo) context.Context {
	x := expect{tags: [][]string{}, ptags: [][]string{}, ff: info.FailFast}
	var p *plan
	if h.client {
		p = ctx.Value(planKey{}).(*plan)
		x = p.x
		x.ff = info.FailFast
	} else {
		md, _ := metadata.FromIncomingContext(ctx)
		if p = h.get(md); p != nil && p.call != nil {
			x.cid = p.call.id
			if v := md[traceKey]; len(v) > 0 {
				x.remote, _ = propagation.FromBinary([]byte(v[0]))
			}
			if b := gstats.Tags(ctx); b != nil {
				if m, err := tag.Decode(b); err == nil {
					x.tags = pairs(m)
				}
			}
		}
	}
	c := h.w.tagRPC(ctx, h.client, info.FullMethodName, x)
	if h.client {
		p.call = c
	}
	return context.WithValue(c.ctx, callKey{}, c)
}
func (h wrap) HandleRPC(ctx context.Context, s gstats.RPCStats) {
	ctx.Value(callKey{}).(*call).handle(s)
}

// serve is the server of every method
func (b *book) serve(srv interface{}, st grpc.ServerStream) error {
	md, _ := metadata.FromIncomingContext(st.Context())
	p := b.get(md)
	if p.block {
		<-st.Context().Done()
		return p.serr
	}
	for i := 0; ; i++ {
		var m []byte
		if err := st.RecvMsg(&m); err == io.EOF {
			return p.serr
		} else if err != nil {
			return err
		}
		if i%2 == 0 {
			m = append(m, 'x')
			if err := st.SendMsg(&m); err != nil {
				return err
			}
		}
	}
}

func (b *book) unary(srv interface{}, ctx context.Context, dec func(interface{}) error, _ grpc.UnaryServerInterceptor) (interface{}, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	p := b.get(md)
	var m []byte
	if err := dec(&m); err != nil {
		return nil, err
	}
	if p.block {
		<-ctx.Done()
	}
	m = append(m, "yy"...)
	return &m, p.serr
}

func (b *book) desc() *grpc.ServiceDesc {
	d := &grpc.ServiceDesc{ServiceName: "zv.S", HandlerType: (*interface{})(nil)}
	for i := 1; i <= 2; i++ {
		d.Methods = append(d.Methods, grpc.MethodDesc{MethodName: fmt.Sprint("U", i), Handler: b.unary})
		d.Streams = append(d.Streams, grpc.StreamDesc{StreamName: fmt.Sprint("T", i), Handler: b.serve, ServerStreams: true, ClientStreams: true})
	}
	return d
}

// rpc makes one RPC
func (b *book) rpc(r *rand.Rand, conn *grpc.ClientConn, no int) {
	w := b.w
	ctx, x, end := w.caller(r, nil)
	defer end()
	id := strconv.Itoa(no)
	p := &plan{x: x, method: vlib.Pick(r, []string{"/zv.S/U1", "/zv.S/U2", "/zv.S/T1", "/zv.S/T2"}), rounds: r.Intn(4)}
	if r.Intn(2) == 0 {
		p.serr = status.Error(codes.Code(1+r.Intn(20)), vlib.Pick(r, []string{"", "no such thing"}))
	}
	b.mu.Lock()
	b.plans[id] = p
	b.mu.Unlock()
	ctx = context.WithValue(metadata.AppendToOutgoingContext(ctx, "zz-id", id), planKey{}, p)
	how := r.Intn(8)
	if how == 0 {
		p.block = true
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, 3*time.Millisecond)
		defer cancel()
	}
	var cancel func()
	ctx, cancel = context.WithCancel(ctx)
	defer cancel()
	in := make([]byte, vlib.Pick(r, []int{0, 1, 100, 5000}))
	opts := []grpc.CallOption{grpc.CallContentSubtype("zvraw"), grpc.WaitForReady(r.Intn(2) == 0)}
	if p.method[6] == 'U' {
		var out []byte
		conn.Invoke(ctx, p.method, &in, &out, opts...)
		return
	}
	st, err := conn.NewStream(ctx, &grpc.StreamDesc{StreamName: "T", ServerStreams: true, ClientStreams: true}, p.method, opts...)
	if err != nil {
		return
	}
	for i := 0; i < p.rounds && !p.block; i++ {
		if st.SendMsg(&in) != nil {
			break
		}
		if i%2 == 0 {
			var m []byte
			if st.RecvMsg(&m) != nil {
				return
			}
		}
		in = append(in, 'z')
		if how == 1 && i == 1 {
			cancel()
			break
		}
	}
	st.CloseSend()
	for {
		var m []byte
		if st.RecvMsg(&m) != nil {
			return
		}
	}
}

func (w *world) network(r *rand.Rand) {
	w.setup(r)
	trace.RegisterExporter(w)
	defer trace.UnregisterExporter(w)
	b := &book{w: w, plans: map[string]*plan{}}
	l := bufconn.Listen(1 << 16)
	srv := grpc.NewServer(grpc.StatsHandler(wrap{b, false}))
	srv.RegisterService(b.desc(), nil)
	served := make(chan bool)
	go func() { srv.Serve(l); close(served) }()
	conn, err := grpc.Dial("bufconn", grpc.WithInsecure(), grpc.WithStatsHandler(wrap{b, true}),
		grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return l.Dial() }))
	if err != nil {
		panic(err)
	}
	n := 1 + r.Intn(5)
	seeds := []int64{0}
	for id := 1; id <= n; id++ {
		seeds = append(seeds, r.Int63())
	}
	run := func(id int) { b.rpc(rand.New(rand.NewSource(seeds[id])), conn, id) }
	if r.Intn(2) == 0 {
		vlib.Par(w.tr, n, run)
	} else {
		for id := 1; id <= n; id++ {
			run(id)
		}
	}
	srv.GracefulStop()
	conn.Close()
	<-served
	w.finish()
}

// TestLive uses real clients and servers.
func TestLive(t *testing.T) {
	e := vlib.Open(t)
	mkViews()
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := newWorld(r, tr)
		w.live = true
		register(true)
		defer register(false)
		trace.ApplyConfig(trace.Config{DefaultSampler: sampler(w.def)})
		w.reader()
		defer close(w.ask)
		w.network(r)
	})
}
