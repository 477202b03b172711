//go:build go1.25

package propdrv

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace/tracestate"
)

type tsobj struct {
	h  int
	ts *tracestate.Tracestate
	l  []tracestate.Entry
}

type stworld struct {
	tr   *vlib.Trace
	mu   sync.Mutex
	strs map[string]int
	objs []*tsobj
	pool []string // keys
	vals []string
	wide bool // many entries, rarely a malformed one
}

func (w *stworld) str(s string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if i, ok := w.strs[s]; ok {
		return i
	}
	i := len(w.strs) + 1
	w.strs[s] = i
	w.tr.Call("str", M{"i": i, "b": bs(s)})
	return i
}

func (w *stworld) list(es []tracestate.Entry) [][]int {
	out := [][]int{}
	for _, e := range es {
		out = append(out, []int{w.str(e.Key), w.str(e.Value)})
	}
	return out
}

func eq(a, b []tracestate.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *stworld) key(r *rand.Rand) string {
	if r.Intn(14) == 0 && (!w.wide || r.Intn(20) == 0) {
		return vlib.Pick(r, []string{"", "1a", "@b", "a@", "a@b@c", "A", "a=b", "a,b", "a b", "é", "a\x00", "_a", "-", "a@1", "a.b", strings.Repeat("k", 257), strings.Repeat("k", 242) + "@s", "t@" + strings.Repeat("s", 15),
			"*a", "a\n"})
	}
	if r.Intn(12) == 0 {
		return goodKey(r, true)
	}
	return vlib.Pick(r, w.pool)
}

func (w *stworld) val(r *rand.Rand) string {
	if r.Intn(16) == 0 && (!w.wide || r.Intn(20) == 0) {
		return vlib.Pick(r, []string{"", " ", "a ", "a,b", "a=b", "\t", "a\tb", "é", "\x7f", "a\n", strings.Repeat("v", 257), strings.Repeat(" ", 256), strings.Repeat("v", 256) + " "})
	}
	if r.Intn(12) == 0 {
		return goodVal(r, true)
	}
	return vlib.Pick(r, w.vals)
}

func (w *stworld) step(th int, r *rand.Rand) {
	w.mu.Lock()
	objs := w.objs
	w.mu.Unlock()
	if r.Intn(6) == 0 && len(objs) > 0 {
		o := vlib.Pick(r, objs)
		w.tr.Call("look", M{"h": o.h, "l": w.list(o.ts.Entries())})
		return
	}
	var p *tsobj
	if len(objs) > 0 && r.Intn(4) > 0 {
		p = vlib.Pick(r, objs)
		if r.Intn(3) == 0 {
			p = objs[len(objs)-1]
		}
	}
	n := vlib.Pick(r, []int{0, 1, 1, 1, 2, 2, 3, 4, 6, 10, 20, 31, 32, 33})
	switch {
	case w.wide && len(objs) == 0:
		n = 28 + r.Intn(5)
	case w.wide:
		n = r.Intn(7)
	case r.Intn(3) > 0:
		n = r.Intn(4)
	}
	spare := r.Intn(4)
	es := make([]tracestate.Entry, 0, n+spare)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		e := tracestate.Entry{Key: w.key(r), Value: w.val(r)}
		for t := 0; used[e.Key] && r.Intn(16) > 0 && t < 20; t++ {
			e.Key = vlib.Pick(r, w.pool)
		}
		used[e.Key] = true
		es = append(es, e)
	}
	full := es[:cap(es)]
	for i := n; i < len(full); i++ {
		full[i] = tracestate.Entry{Key: "spare", Value: fmt.Sprint(i)}
	}
	before := append([]tracestate.Entry(nil), full...)
	a := M{"p": 0, "es": w.list(es)}
	var pt *tracestate.Tracestate
	if p != nil {
		pt = p.ts
		a["p"] = p.h
	}
	w.tr.Inv(th, "new", a)
	ts, err := tracestate.New(pt, es...)
	same := eq(full, before)
	for _, o := range objs {
		same = same && eq(o.ts.Entries(), o.l)
	}
	l := append([]tracestate.Entry(nil), ts.Entries()...)
	w.mu.Lock()
	h := 0
	if ts != nil {
		h = len(w.objs) + 1
	}
	w.mu.Unlock()
	ll := w.list(l)
	// handles are numbered in the order of the events
	w.mu.Lock()
	if ts != nil {
		h = len(w.objs) + 1
	}
	w.tr.Ret(th, "new", M{"h": h, "err": err != nil, "l": ll, "same": same})
	if ts != nil {
		w.objs = append(w.objs[:len(w.objs):len(w.objs)], &tsobj{h, ts, l})
	}
	w.mu.Unlock()
	// the caller goes on using its slice
	for i := range full {
		full[i] = tracestate.Entry{Key: "zz", Value: "zz"}
	}
}

// TestState makes tracestates.
func TestState(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		w := &stworld{tr: tr, strs: map[string]int{}}
		nk := vlib.Pick(r, []int{3, 5, 12, 40})
		if w.wide = r.Intn(3) == 0; w.wide {
			nk = 33 + r.Intn(8)
		}
		for i := 0; i < nk; i++ {
			w.pool = append(w.pool, goodKey(r, false))
		}
		for i := 0; i < 6; i++ {
			w.vals = append(w.vals, goodVal(r, false))
		}
		w.str("zz")
		for i := 3 + r.Intn(10); i > 0; i-- {
			w.step(1, r)
		}
		if e.Mode == "seq" {
			return
		}
		n := 2 + r.Intn(2)
		rs := make([]*rand.Rand, n+1)
		for i := range rs {
			rs[i] = rand.New(rand.NewSource(r.Int63()))
		}
		vlib.Par(tr, n, func(th int) {
			for i := 0; i < 4; i++ {
				w.step(th, rs[th])
			}
		})
		for _, o := range w.objs {
			w.tr.Call("look", M{"h": o.h, "l": w.list(o.ts.Entries())})
		}
	})
}
