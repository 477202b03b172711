//go:build go1.25

// Package vlib is the trace recorder shared by the conformance drivers.
package vlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/internal/zzv/vs"
)

// M is one event.
type M map[string]interface{}

// Trace is one recorded behaviour.
type Trace struct {
	mu   sync.Mutex
	ID   int
	Ev   []M
	Meta M
	done bool
}

// Add appends an event; the order of Add calls is the order of the trace.
func (t *Trace) Add(e M) {
	t.mu.Lock()
	if !t.done {
		t.Ev = append(t.Ev, e)
	}
	t.mu.Unlock()
}

// Inv / Ret / Call are the usual event shapes.
func (t *Trace) Inv(th int, op string, a M) { t.Add(mk("inv", th, op, a)) }
func (t *Trace) Ret(th int, op string, a M) { t.Add(mk("ret", th, op, a)) }
func (t *Trace) Call(op string, a M)        { t.Add(mk("call", 0, op, a)) }

func mk(e string, th int, op string, a M) M {
	m := M{"e": e, "th": th, "op": op}
	for k, v := range a {
		m[k] = v
	}
	return m
}

// Guard runs f and records a panic as an event.
func (t *Trace) Guard(th int, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Panic(th, r)
		}
	}()
	f()
}

// Panic records a panic.
func (t *Trace) Panic(th int, r interface{}) {
	t.Add(M{"e": "panic", "th": th, "op": "panic", "msg": fmt.Sprint(r), "stack": Frames(string(debug.Stack()))})
}

// Frames keeps the opencensus frames of a stack.
func Frames(st string) []string {
	out := []string{}
	for _, ln := range strings.Split(st, "\n") {
		if strings.HasPrefix(ln, "go.opencensus.io/") && !strings.Contains(ln, "zzv/") {
			if i := strings.LastIndex(ln, "("); i > 0 {
				ln = ln[:i]
			}
			out = append(out, ln)
		}
	}
	return out
}

// Env is the driver's command line.
type Env struct {
	Seed  int64
	N     int
	Mode  string
	Tier  string
	Instr bool
	Race  bool
	Limit time.Duration
	out   *bufio.Writer
	f     *os.File
	T     *testing.T
}

// Int reads an integer parameter.
func Int(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Open reads the environment.
func Open(t *testing.T) *Env {
	e := &Env{
		Seed: int64(Int("ZV_SEED", 1)), N: Int("ZV_N", 10), Mode: os.Getenv("ZV_MODE"), Tier: os.Getenv("ZV_TIER"),
		Instr: os.Getenv("ZV_INSTR") == "1", Race: os.Getenv("ZV_RACE") == "1",
		Limit: time.Duration(Int("ZV_LIMIT", 90)) * time.Second, T: t,
	}
	p := os.Getenv("ZV_OUT")
	if p == "" {
		t.Skip("no ZV_OUT")
	}
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	e.f, e.out = f, bufio.NewWriterSize(f, 1<<20)
	return e
}

// Emit writes one trace.
func (e *Env) Emit(tr *Trace) {
	tr.mu.Lock()
	tr.done = true
	if tr.Ev == nil {
		tr.Ev = []M{}
	}
	rec := M{"id": tr.ID, "ev": tr.Ev, "seed": e.Seed}
	for k, v := range tr.Meta {
		rec[k] = v
	}
	b, err := json.Marshal(rec)
	tr.mu.Unlock()
	if err != nil {
		panic(err)
	}
	e.out.Write(b)
	e.out.WriteByte('\n')
}

// Close flushes the output.
func (e *Env) Close() { e.out.Flush(); e.f.Close() }

// Sub is a sub-seed for trace i.
func (e *Env) Sub(i int) int64 { return e.Seed*1000003 + int64(i)*7919 + 17 }

// Run records e.N traces with body. A trace whose body does not finish within
// the limit gets a "hang" event and ends the driver.
func (e *Env) Run(body func(r *rand.Rand, tr *Trace)) {
	defer e.Close()
	est := int64(60)
	if e.Instr {
		runtime.GOMAXPROCS(1)
	}
	for i := 0; i < e.N; i++ {
		tr := &Trace{ID: i, Meta: M{}}
		r := rand.New(rand.NewSource(e.Sub(i)))
		done := make(chan struct{})
		if e.Instr {
			vs.Begin(uint64(e.Sub(i)), est)
		}
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					tr.Panic(0, p)
				}
			}()
			body(r, tr)
		}()
		tm := time.NewTimer(e.Limit)
		select {
		case <-done:
			tm.Stop()
		case <-tm.C:
			tr.Add(M{"e": "hang", "th": 0, "op": "hang", "stack": AllFrames()})
			vs.End()
			e.Emit(tr)
			return
		}
		if e.Instr {
			vs.End()
			est = (est*3 + vs.Count()) / 4
		}
		e.Emit(tr)
	}
}

// AllFrames lists the opencensus frames of every goroutine.
func AllFrames() []string {
	b := make([]byte, 1<<20)
	return Frames(string(b[:runtime.Stack(b, true)]))
}

// Par runs n thread bodies concurrently and waits for them.
func Par(tr *Trace, n int, f func(th int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for th := 1; th <= n; th++ {
		wg.Add(1)
		go func(th int) {
			defer wg.Done()
			<-start
			tr.Guard(th, func() { f(th) })
		}(th)
	}
	close(start)
	wg.Wait()
}

// Intern maps values to small positive integers in order of first use.
type Intern[K comparable] struct {
	mu sync.Mutex
	m  map[K]int
}

// ID is the number of k.
func (x *Intern[K]) ID(k K) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.m == nil {
		x.m = map[K]int{}
	}
	if v, ok := x.m[k]; ok {
		return v
	}
	x.m[k] = len(x.m) + 1
	return x.m[k]
}

// Bytes renders b as a JSON array of numbers.
func Bytes(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

// Pick chooses one element.
func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
