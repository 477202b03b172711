//go:build go1.25

// Package propdrv drives the trace context propagators and tracestate.
package propdrv

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	sd "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

type M = vlib.M

var names = []string{"Traceparent", "Tracestate", "X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled", "X-Cloud-Trace-Context"}

var formats = map[string]propagation.HTTPFormat{"b3": &b3.HTTPFormat{}, "tc": &tracecontext.HTTPFormat{}, "sd": &sd.HTTPFormat{}}

func bs(s string) []int { return vlib.Bytes([]byte(s)) }

func ents(ts *tracestate.Tracestate) [][][]int {
	out := [][][]int{}
	for _, e := range ts.Entries() {
		out = append(out, [][]int{bs(e.Key), bs(e.Value)})
	}
	return out
}

func ctxm(sc trace.SpanContext) M {
	var o [4]byte
	binary.BigEndian.PutUint32(o[:], uint32(sc.TraceOptions))
	return M{"tid": vlib.Bytes(sc.TraceID[:]), "sid": vlib.Bytes(sc.SpanID[:]), "opt": vlib.Bytes(o[:]), "ts": ents(sc.Tracestate)}
}

func res(sc trace.SpanContext, ok bool) M {
	m := ctxm(sc)
	m["ok"] = ok
	return m
}

type world struct {
	tr  *vlib.Trace
	req *http.Request
}

func (w *world) snap() [][][]int {
	out := [][][]int{}
	for _, n := range names {
		vs := [][]int{}
		for _, v := range w.req.Header[n] {
			vs = append(vs, bs(v))
		}
		out = append(out, vs)
	}
	return out
}

func (w *world) set(n int, vs ...string) {
	if len(vs) == 0 {
		delete(w.req.Header, names[n])
	} else {
		w.req.Header[names[n]] = vs
	}
	l := [][]int{}
	for _, v := range vs {
		l = append(l, bs(v))
	}
	w.tr.Call("sethdr", M{"n": n + 1, "vs": l, "h": w.snap()})
}

func (w *world) write(f string, sc trace.SpanContext) {
	formats[f].SpanContextToRequest(sc, w.req)
	w.tr.Call("write", M{"f": f, "x": ctxm(sc), "h": w.snap()})
}

func (w *world) read(f string) {
	m := res(formats[f].SpanContextFromRequest(w.req))
	m["f"], m["h"] = f, w.snap()
	w.tr.Call("read", m)
}

func (w *world) strings(tp, ts string) {
	m := res((&tracecontext.HTTPFormat{}).SpanContextFromHeaders(tp, ts))
	m["tp"], m["st"] = bs(tp), bs(ts)
	w.tr.Call("strings", m)
}

func (w *world) bin(sc trace.SpanContext) []byte {
	b := propagation.Binary(sc)
	w.tr.Call("bin", M{"x": ctxm(sc), "b": vlib.Bytes(b)})
	return b
}

func (w *world) frombin(b []byte) {
	in := append([]byte(nil), b...)
	m := res(propagation.FromBinary(in))
	m["b"], m["same"] = vlib.Bytes(b), string(in) == string(b)
	w.tr.Call("frombin", m)
}

func rbyte(r *rand.Rand) byte {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return vlib.Pick(r, []byte{1, 0x7f, 0x80, 0xff, 0x0a, 0xa0})
	}
	return byte(r.Intn(256))
}

func ids(r *rand.Rand) (sc trace.SpanContext) {
	for i := range sc.TraceID {
		sc.TraceID[i] = rbyte(r)
	}
	for i := range sc.SpanID {
		sc.SpanID[i] = rbyte(r)
	}
	switch r.Intn(6) {
	case 0:
		sc.TraceID = trace.TraceID{}
		sc.TraceID[r.Intn(16)] = 1
	case 1:
		sc.SpanID = trace.SpanID{}
		sc.SpanID[r.Intn(8)] = rbyte(r)
	case 2:
		copy(sc.TraceID[:8], make([]byte, 8))
	}
	if sc.TraceID == (trace.TraceID{}) {
		sc.TraceID[15] = 7
	}
	if sc.SpanID == (trace.SpanID{}) {
		sc.SpanID[0] = 9
	}
	switch r.Intn(3) {
	case 0:
		sc.TraceOptions = trace.TraceOptions(r.Intn(2))
	case 1:
		sc.TraceOptions = trace.TraceOptions(r.Intn(256))
	default:
		sc.TraceOptions = trace.TraceOptions(r.Uint32() >> uint(r.Intn(25)))
	}
	return sc
}

const keyChars = "abcdefghijklmnopqrstuvwxyz0123456789_-*/"

func word(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = keyChars[r.Intn(len(keyChars))]
	}
	if n > 0 {
		b[0] = byte('a' + r.Intn(26))
	}
	return string(b)
}

func goodKey(r *rand.Rand, long bool) string {
	if !long {
		if r.Intn(4) == 0 {
			return word(r, 1+r.Intn(3)) + "@" + word(r, 1+r.Intn(3))
		}
		return word(r, 1+r.Intn(4))
	}
	if r.Intn(2) == 0 {
		return word(r, vlib.Pick(r, []int{241, 240, 100})) + "@" + word(r, vlib.Pick(r, []int{14, 13, 1}))
	}
	return word(r, vlib.Pick(r, []int{256, 255, 242}))
}

func goodVal(r *rand.Rand, long bool) string {
	n := 1 + r.Intn(5)
	if long {
		n = vlib.Pick(r, []int{256, 255, 200, 128})
	}
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(32 + r.Intn(95))
			if r.Intn(6) == 0 {
				b[i] = ' '
			}
			if b[i] != ',' && b[i] != '=' && (i < n-1 || b[i] != ' ') {
				break
			}
		}
	}
	return string(b)
}

// a tracestate made by New; total is a length of its header to aim at, or 0.
func state(r *rand.Rand) *tracestate.Tracestate {
	if r.Intn(3) == 0 {
		return nil
	}
	var es []tracestate.Entry
	seen := map[string]bool{}
	n := 1 + r.Intn(4)
	if r.Intn(6) == 0 {
		n = 28 + r.Intn(5)
	}
	for i := 0; i < n; i++ {
		e := tracestate.Entry{Key: goodKey(r, r.Intn(12) == 0), Value: goodVal(r, r.Intn(12) == 0)}
		if !seen[e.Key] {
			seen[e.Key] = true
			es = append(es, e)
		}
	}
	// aim at the limit of the header's length
	if r.Intn(3) == 0 {
		l := len(es)*2 - 1
		for _, e := range es {
			l += len(e.Key) + len(e.Value)
		}
		for _, want := range []int{510 + r.Intn(5)} {
			for k := 0; l < want && k < len(es); k++ {
				add := min(want-l, 256-len(es[k].Value))
				es[k].Value = strings.Repeat("v", add) + es[k].Value
				l += add
			}
		}
	}
	ts, err := tracestate.New(nil, es...)
	if err != nil {
		panic(err)
	}
	return ts
}

func newWorld(tr *vlib.Trace) *world {
	return &world{tr: tr, req: httptest.NewRequest("GET", "http://x/", nil)}
}

var fnames = []string{"b3", "tc", "sd"}

func roundTrips(r *rand.Rand, tr *vlib.Trace) {
	w := newWorld(tr)
	for i := 4 + r.Intn(8); i > 0; i-- {
		f := vlib.Pick(r, fnames)
		switch r.Intn(8) {
		case 0:
			w.set(r.Intn(6), vlib.Pick(r, [][]string{{}, {""}, {"x", "y"}, {"a=1"}, {"00-00-00-00"}, {"1", "0"}})...)
		case 1:
			w.read(f)
		case 2:
			sc := ids(r)
			sc.Tracestate = state(r)
			w.frombin(w.bin(sc))
		case 3:
			sc := ids(r)
			sc.Tracestate = state(r)
			tp, ts := (&tracecontext.HTTPFormat{}).SpanContextToHeaders(sc)
			w.tr.Call("tostrings", M{"x": ctxm(sc), "tp": bs(tp), "st": bs(ts)})
			w.strings(tp, ts)
		default:
			sc := ids(r)
			if f == "tc" || r.Intn(3) == 0 {
				sc.Tracestate = state(r)
			}
			w.write(f, sc)
			w.read(f)
		}
	}
}

// TestRound writes and reads contexts.
func TestRound(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { roundTrips(r, tr) })
}

var odd = []byte{0, 1, 9, 10, 13, ' ', '"', '%', '*', '+', ',', '-', '.', '/', '0', '1', '9', ':', ';', '<', '=', '>', '@', 'A', 'F', 'G', 'Z', '_', '`', 'a', 'f', 'g', 'o', 'x', 'z', '{', '~', 0x7f, 0x80, 0xc3, 0xff}

func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(2); n > 0; n-- {
		c := odd[r.Intn(len(odd))]
		if r.Intn(4) == 0 {
			c = byte(r.Intn(256))
		}
		p := 0
		if len(b) > 0 {
			p = r.Intn(len(b) + 1)
		}
		switch r.Intn(7) {
		case 0:
			b = append(b[:p:p], append([]byte{c}, b[p:]...)...)
		case 1:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2:
			b = b[:p]
		case 3:
			b = append(b, c)
		case 4: // repeat a part
			if len(b) > 0 {
				q := r.Intn(p + 1)
				b = append(b[:p:p], b[q:]...)
			}
		default:
			if p < len(b) {
				b[p] = c
			}
		}
	}
	if len(b) > 700 {
		b = b[:700]
	}
	return string(b)
}

func tpText(r *rand.Rand) string {
	sc := ids(r)
	if r.Intn(10) == 0 {
		sc.TraceID = trace.TraceID{}
	}
	if r.Intn(10) == 0 {
		sc.SpanID = trace.SpanID{}
	}
	v := vlib.Pick(r, []string{"00", "00", "00", "01", "cc", "fe", "ff", "FF", "0", "000", "0g"})
	s := fmt.Sprintf("%s-%x-%x-%02x", v, sc.TraceID[:], sc.SpanID[:], byte(sc.TraceOptions))
	switch r.Intn(8) {
	case 0:
		s += vlib.Pick(r, []string{"-", "-01", "-what-the", "-00-00", "00", " ", "-,-"})
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.Replace(s, "-", "", 1)
	}
	return s
}

func tsText(r *rand.Rand) string {
	ts := state(r)
	var p []string
	for _, e := range ts.Entries() {
		p = append(p, e.Key+"="+e.Value)
	}
	if r.Intn(6) == 0 {
		// long keys, many entries
		for i := r.Intn(36); i > 0; i-- {
			p = append(p, fmt.Sprintf("k%d=%d", i, i))
		}
	}
	for i := range p {
		switch r.Intn(12) {
		case 0:
			p[i] = " " + p[i]
		case 1:
			p[i] += "\t "
		case 2:
			p[i] += vlib.Pick(r, []string{"=", "=x", ";", "\n", "\x00", "é"})
		case 3:
			p[i] = strings.ToUpper(p[i])
		case 4:
			if i > 0 && r.Intn(2) == 0 {
				p[i] = p[i-1]
			}
		}
	}
	s := strings.Join(p, vlib.Pick(r, []string{",", ",", ", ", ",,", " ,\t"}))
	if r.Intn(3) == 0 {
		s = mutate(r, s)
	}
	return s
}

func sdText(r *rand.Rand) string {
	sc := ids(r)
	s := hex.EncodeToString(sc.TraceID[:])
	switch r.Intn(10) {
	case 0:
		s = s[:2*r.Intn(16)]
	case 1:
		s += "00"
	case 2:
		s = strings.ToUpper(s)
	}
	s += "/" + vlib.Pick(r, []string{"0", "1", "18446744073709551615", "18446744073709551616", "18446744073709551620", "28446744073709551615", "99999999999999999999", "0001", "007",
		"+1", "-1", "0x10", "1_0", "", " 1", fmt.Sprint(r.Uint64()), fmt.Sprint(r.Uint64()), strings.Repeat("0", 170), "00000000000000000000000000000000000001"})
	s += vlib.Pick(r, []string{"", ";o=1", ";o=1", ";o=0", ";o=", ";o=255", ";o=256", ";o=4294967295", ";o=4294967296", ";o=-1", ";x=1", ";", ";o=1;o=2", ";o=01", "o=1", ";o=1 ", ";O=1"})
	return s
}

func bad(r *rand.Rand, tr *vlib.Trace) {
	w := newWorld(tr)
	for i := 6; i > 0; i-- {
		switch r.Intn(6) {
		case 0, 1:
			s := tpText(r)
			if r.Intn(2) == 0 {
				s = mutate(r, s)
			}
			ts := tsText(r)
			if r.Intn(3) == 0 {
				w.strings(s, ts)
				break
			}
			if r.Intn(10) == 0 {
				w.set(0, s, tpText(r))
			} else {
				w.set(0, s)
			}
			if r.Intn(3) == 0 {
				k := strings.Count(ts, ",")
				if k > 0 {
					p := strings.SplitN(ts, ",", 1+r.Intn(k+1))
					w.set(1, p...)
				}
			} else {
				w.set(1, ts)
			}
			w.read("tc")
		case 2:
			sc := ids(r)
			n, m := r.Intn(36), r.Intn(20)
			t, s := hex.EncodeToString(append(sc.TraceID[:], sc.SpanID[:]...))[:n], hex.EncodeToString(append(sc.SpanID[:], 1, 2))[:m]
			if r.Intn(2) == 0 {
				t, s = hex.EncodeToString(sc.TraceID[:]), hex.EncodeToString(sc.SpanID[:])
			}
			if r.Intn(4) == 0 {
				t, s = strings.Repeat("0", len(t)), strings.ToUpper(s)
			}
			if r.Intn(3) == 0 {
				t = mutate(r, t)
			}
			if r.Intn(3) == 0 {
				s = mutate(r, s)
			}
			w.set(2, t)
			w.set(3, s)
			w.set(4, vlib.Pick(r, [][]string{{}, {"1"}, {"0"}, {"true"}, {"True"}, {"d"}, {"01"}, {"1 "}, {"false"}, {"0", "1"}, {"1", "0"}, {""}, {"trueee"}})...)
			w.read("b3")
		case 3:
			s := sdText(r)
			if r.Intn(2) == 0 {
				s = mutate(r, s)
			}
			w.set(5, s)
			w.read("sd")
		case 4:
			b := propagation.Binary(ids(r))
			switch r.Intn(6) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				b = append(b, rbyte(r), rbyte(r))
			case 2:
				b[vlib.Pick(r, []int{0, 1, 18, 27})] = byte(r.Intn(4))
			case 3: // a field is left out
				b = vlib.Pick(r, [][]byte{append(b[:18:18], b[27:]...), b[:18], b[:27], append([]byte{0}, b[18:]...), append(append([]byte{0, 0}, b[2:18]...), append(b[27:29:29], b[18:27]...)...)})
			case 4:
				b = []byte(mutate(r, string(b)))
			}
			w.frombin(b)
		default:
			// every change of one byte of a part of a good header
			s := fmt.Sprintf("%s-%x-%x-01", vlib.Pick(r, []string{"00", "01"}), "abcdefghABCDEFGH", "12345678")
			p := r.Intn(len(s))
			for k := 0; k < 12; k++ {
				b := []byte(s)
				b[p] = byte(r.Intn(256))
				if k < 4 {
					b[p] = vlib.Pick(r, odd)
				}
				w.strings(string(b), "")
			}
		}
	}
}

// TestBad reads header values of every shape.
func TestBad(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) { bad(r, tr) })
}

// TestEnum reads, systematically, every one-byte change, removal, insertion and truncation of good headers.
func TestEnum(t *testing.T) {
	e := vlib.Open(t)
	good := []struct{ f, s string }{
		{"tc", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}, {"tc", "cc-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-ff-x"},
		{"ts", "a=1,b@c= x,d-*/_9=~"}, {"sd", "0af7651916cd43dd8448eb211c80319c/1234567890123456789;o=1"},
		{"b3t", "0af7651916cd43dd8448eb211c80319c"}, {"b3t", "1c80319c"}, {"b3s", "b7ad6b7169203331"}, {"b3f", "1"}, {"b3f", "true"}, {"bin", string(propagation.Binary(trace.SpanContext{
			TraceID: trace.TraceID{1, 2, 3}, SpanID: trace.SpanID{4}, TraceOptions: 1}))},
	}
	var all []struct{ f, s string }
	for _, g := range good {
		add := func(s string) { all = append(all, struct{ f, s string }{g.f, s}) }
		for p := 0; p <= len(g.s); p++ {
			add(g.s[:p])
			add(g.s[p:])
			for _, c := range odd {
				add(g.s[:p] + string([]byte{c}) + g.s[p:])
			}
			if p < len(g.s) {
				add(g.s[:p] + g.s[p+1:])
				for _, c := range odd {
					add(g.s[:p] + string([]byte{c}) + g.s[p+1:])
				}
			}
		}
	}
	// pieces of the enumeration, in an order that differs by seed
	ord := rand.New(rand.NewSource(e.Seed)).Perm(len(all))
	next := 0
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := newWorld(tr)
		w.set(0, "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01")
		w.set(2, "0af7651916cd43dd8448eb211c80319c")
		w.set(3, "b7ad6b7169203331")
		for k := 0; k < 30; k++ {
			x := all[ord[next%len(all)]]
			next++
			switch x.f {
			case "tc":
				w.strings(x.s, "")
			case "ts":
				w.set(1, x.s)
				w.read("tc")
			case "sd":
				w.set(5, x.s)
				w.read("sd")
			case "bin":
				w.frombin([]byte(x.s))
			default:
				n := map[string]int{"b3t": 2, "b3s": 3, "b3f": 4}[x.f]
				old := w.req.Header[names[n]]
				w.set(n, x.s)
				w.read("b3")
				w.set(n, old...)
			}
		}
	})
}
