//go:build go1.25

package tagdrv

import (
	"context"
	"encoding/binary"
	"errors"
	"math/rand"
	"regexp"
	"runtime/pprof"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/tag"
)

func bs(s string) []int { return vlib.Bytes([]byte(s)) }

var keyPool = []string{"k", "k1", "k2", " ", "~", "key with spaces", strings.Repeat("x", 255), strings.Repeat("x", 254) + "y", "K", "a\\\"b"}
var badKeys = []string{"", strings.Repeat("x", 256), "a\x1f", "a\x7f", "\x00", "é", "a\xff", "a\nb", "\xc3\x28", strings.Repeat("y", 300)}
var vals = []string{"", "v", "v1", "v2", " ", "~", strings.Repeat("z", 255), strings.Repeat("z", 128), strings.Repeat("z", 127), "V"}
var badVals = []string{strings.Repeat("z", 256), "\x1f", "\x7f", "é", "a\x00b", "\xff", "a\tb", strings.Repeat("é", 100)}

// labels lists the tags tag.Do installs as profiler labels.
func labels(ctx context.Context) ([]vlib.M, int) {
	out, n := []vlib.M{}, 0
	tag.Do(ctx, func(c context.Context) {
		n++
		pprof.ForLabels(c, func(k, v string) bool {
			out = append(out, vlib.M{"k": bs(k), "v": bs(v)})
			return true
		})
	})
	return out, n
}

var strRE = regexp.MustCompile(`\{([0-9A-Za-z]+) \{([0-9A-Za-z]*) `)

// each calls DecodeEach although its callback names an unexported type.
func each[T any](dec func([]byte, func(tag.Key, string, T)) error, b []byte, f func(k, v string)) error {
	return dec(b, func(k tag.Key, v string, _ T) { f(k.Name(), v) })
}

type failing struct{}

func (failing) Mutate(m *tag.Map) (*tag.Map, error) { return nil, errors.New("no") }

type failing2 struct{}

func (failing2) Mutate(m *tag.Map) (*tag.Map, error) { return m, errors.New("no") }

func mutators(r *rand.Rand, simple bool) ([]tag.Mutator, []vlib.M) {
	ms, es := []tag.Mutator{}, []vlib.M{}
	for n := vlib.Pick(r, []int{0, 1, 1, 2, 2, 3, 4, 8}); n > 0; n-- {
		kn := vlib.Pick(r, keyPool)
		vn := vlib.Pick(r, vals)
		if simple {
			kn, vn = vlib.Pick(r, []string{"k", "k1", "k2"}), vlib.Pick(r, []string{"", "v", "v1", "v2"})
		}
		k := tag.MustNewKey(kn)
		if r.Intn(60) == 0 {
			k, kn = tag.Key{}, ""
		}
		if r.Intn(25) == 0 {
			vn = vlib.Pick(r, badVals)
		}
		mds, em := []tag.Metadata{}, []string{}
		for q := vlib.Pick(r, []int{0, 0, 0, 1, 1, 2}); q > 0; q-- {
			if r.Intn(2) == 0 {
				mds, em = append(mds, tag.WithTTL(tag.TTLNoPropagation)), append(em, "none")
			} else {
				mds, em = append(mds, tag.WithTTL(tag.TTLUnlimitedPropagation)), append(em, "unlimited")
			}
		}
		e := vlib.M{"k": bs(kn), "v": bs(vn), "mds": em}
		switch q := r.Intn(40); {
		case q < 10:
			ms = append(ms, tag.Insert(k, vn, mds...))
			e["op"] = "insert"
		case q < 20:
			ms = append(ms, tag.Update(k, vn, mds...))
			e["op"] = "update"
		case q < 30:
			ms = append(ms, tag.Upsert(k, vn, mds...))
			e["op"] = "upsert"
		case q < 39:
			if kn == "" {
				continue
			}
			ms = append(ms, tag.Delete(k))
			e["op"] = "delete"
		default:
			if r.Intn(2) == 0 {
				ms = append(ms, failing{})
			} else {
				ms = append(ms, failing2{})
			}
			e["op"] = "fail"
		}
		es = append(es, e)
	}
	return ms, es
}

type world struct {
	mu   sync.Mutex
	ctxs []context.Context
}

// add must be called with mu held.
func (w *world) add(c context.Context) int { w.ctxs = append(w.ctxs, c); return len(w.ctxs) - 1 }
func (w *world) pick(r *rand.Rand) (int, context.Context) {
	w.mu.Lock()
	defer w.mu.Unlock()
	i := len(w.ctxs) - 1 - r.Intn(min(len(w.ctxs), 5))
	if r.Intn(4) == 0 {
		i = r.Intn(len(w.ctxs))
	}
	return i, w.ctxs[i]
}

type ck struct{}

func step(r *rand.Rand, tr *vlib.Trace, w *world, simple bool) {
	i, ctx := w.pick(r)
	switch q := r.Intn(20); {
	case q < 8:
		ms, es := mutators(r, simple)
		if r.Intn(4) == 0 {
			ctx = context.WithValue(ctx, ck{}, r.Intn(10))
		}
		got, err := tag.New(ctx, ms...)
		w.mu.Lock()
		if err != nil {
			tr.Call("new", vlib.M{"c": i, "d": 0, "muts": es, "err": true, "same": got == ctx})
		} else {
			d := w.add(got)
			tr.Call("new", vlib.M{"c": i, "d": d, "muts": es, "err": false, "same": got == ctx})
		}
		w.mu.Unlock()
	case q < 12:
		kn := vlib.Pick(r, keyPool)
		if simple {
			kn = vlib.Pick(r, []string{"k", "k1", "k2"})
		}
		k, _ := tag.NewKey(kn)
		v, ok := tag.FromContext(ctx).Value(k)
		tr.Call("get", vlib.M{"c": i, "k": bs(kn), "v": bs(v), "ok": ok})
	case q < 15:
		m, n := labels(ctx)
		tr.Call("labels", vlib.M{"c": i, "m": m, "runs": n})
	case q < 16 && simple:
		s := tag.FromContext(ctx).String()
		m := []vlib.M{}
		for _, x := range strRE.FindAllStringSubmatch(s, -1) {
			m = append(m, vlib.M{"k": bs(x[1]), "v": bs(x[2])})
		}
		tr.Call("str", vlib.M{"c": i, "m": m, "none": s == "nil"})
	case q < 17:
		kn := vlib.Pick(r, badKeys)
		if r.Intn(2) == 0 {
			b := make([]byte, 1+r.Intn(4))
			r.Read(b)
			kn = string(b)
		}
		k, err := tag.NewKey(kn)
		tr.Call("newkey", vlib.M{"k": bs(kn), "ok": err == nil, "name": bs(k.Name())})
	default:
		b := tag.Encode(tag.FromContext(ctx))
		tr.Call("enc", vlib.M{"c": i, "b": vlib.Bytes(b)})
		if r.Intn(2) == 0 {
			decode(r, tr, w, b)
		}
	}
}

func decode(r *rand.Rand, tr *vlib.Trace, w *world, b []byte) {
	in := append([]byte{}, b...)
	m, err := tag.Decode(in)
	if err != nil {
		tr.Call("dec", vlib.M{"b": vlib.Bytes(b), "err": true, "part": m != nil, "m": []int{}, "d": 0})
	} else {
		ctx := tag.NewContext(context.Background(), m)
		l, _ := labels(ctx)
		if w != nil {
			w.mu.Lock()
			d := w.add(ctx)
			tr.Call("dec", vlib.M{"b": vlib.Bytes(b), "err": false, "part": false, "m": l, "d": d})
			w.mu.Unlock()
		} else {
			tr.Call("dec", vlib.M{"b": vlib.Bytes(b), "err": false, "part": false, "m": l, "d": 0})
		}
	}
	// the caller may reuse its buffer
	for i := range in {
		in[i] = 0xff
	}
	if r.Intn(3) == 0 {
		fs := []vlib.M{}
		err := each(tag.DecodeEach, append([]byte{}, b...), func(k, v string) { fs = append(fs, vlib.M{"k": bs(k), "v": bs(v)}) })
		tr.Call("each", vlib.M{"b": vlib.Bytes(b), "err": err != nil, "m": fs})
	}
}

// TestTag: C08 (and, with encodings, C09).
func TestTag(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := &world{ctxs: []context.Context{context.Background()}}
		simple := r.Intn(2) == 0
		for k := 5 + r.Intn(15); k > 0; k-- {
			step(r, tr, w, simple)
		}
		if e.Mode != "seq" {
			s := []int64{0, r.Int63(), r.Int63(), r.Int63()}
			vlib.Par(tr, 3, func(th int) {
				r := rand.New(rand.NewSource(s[th]))
				for k := 0; k < 5; k++ {
					step(r, tr, w, simple)
				}
			})
		}
		// every context made on the way still has its tags
		for i, c := range w.ctxs {
			m, n := labels(c)
			tr.Call("labels", vlib.M{"c": i, "m": m, "runs": n})
			if r.Intn(3) == 0 {
				tr.Call("enc", vlib.M{"c": i, "b": vlib.Bytes(tag.Encode(tag.FromContext(c)))})
			}
		}
	})
}

func str(b []byte, s string) []byte {
	return append(binary.AppendUvarint(b, uint64(len(s))), s...)
}

// TestCodec: C09, arbitrary and nearly valid inputs of the decoder.
func TestCodec(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		for n := 20; n > 0; n-- {
			var b []byte
			switch r.Intn(8) {
			case 0:
				b = make([]byte, r.Intn(12))
				r.Read(b)
				if len(b) > 0 && r.Intn(3) > 0 {
					b[0] = 0
				}
			default:
				b = []byte{0}
				for k := r.Intn(5); k > 0; k-- {
					b = append(b, 0)
					kn, vn := vlib.Pick(r, []string{"k", "k", "k1", "k2", "x"}), vlib.Pick(r, []string{"", "v", "v1", "v2"})
					if r.Intn(8) == 0 {
						kn = vlib.Pick(r, keyPool)
					}
					if r.Intn(8) == 0 {
						vn = vlib.Pick(r, vals)
					}
					if r.Intn(25) == 0 {
						kn = vlib.Pick(r, badKeys)
					}
					if r.Intn(25) == 0 {
						vn = vlib.Pick(r, badVals)
					}
					b = str(str(b, kn), vn)
				}
				if r.Intn(8) > 0 {
					for k := 1 + r.Intn(2); k > 0 && len(b) > 0; k-- {
						i := r.Intn(len(b))
						if r.Intn(2) == 0 {
							i = min(i, r.Intn(len(b)))
						}
						switch r.Intn(6) {
						case 0:
							b = b[:i]
						case 1:
							b[i] = byte(r.Intn(256))
						case 2:
							b[i] ^= 1 << r.Intn(8)
						case 3:
							b = append(b[:i], b[i+1:]...)
						case 4: // a long or huge length
							x := [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
								{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00},
								{0x81, 0x80, 0x00}, {0x80, 0x00}, {0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
								{0xfe, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0x07}, {0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}}[r.Intn(12)]
							b = append(append(append([]byte{}, b[:i]...), x...), b[i+1:]...)
						default:
							b = append(append(append([]byte{}, b[:i]...), byte(r.Intn(4))), b[i:]...)
						}
					}
				}
			}
			decode(r, tr, nil, b)
		}
	})
}

// TestEnum: C09, every byte string up to length 5 over a small alphabet.
func TestEnum(t *testing.T) {
	e := vlib.Open(t)
	al := []byte{0, 1, 2, 'k', 0x80, 0x1f}
	i := int(e.Seed%100) * e.N
	const per = 40
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		for k := 0; k < per; k++ {
			x := i*per + k
			// number x in the list of all strings over al that start with 0
			n, size := 0, 1
			for x >= size {
				x -= size
				n++
				size *= len(al)
			}
			b := []byte{0}
			for j := 0; j < n; j++ {
				b = append(b, al[x%len(al)])
				x /= len(al)
			}
			decode(r, tr, nil, b)
		}
		i++
	})
}
