//go:build go1.25

// Package rpczdrv drives the RPC statistics page of zpages.
package rpczdrv

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/zpages"
)

type M = vlib.M

// the views by direction
var views = [3]map[string]*view.View{1: {
	"completed": ocgrpc.ClientCompletedRPCsView, "latency": ocgrpc.ClientRoundtripLatencyView, "sent": ocgrpc.ClientSentBytesPerRPCView,
	"received": ocgrpc.ClientReceivedBytesPerRPCView, "sentmsgs": ocgrpc.ClientSentMessagesPerRPCView, "recvmsgs": ocgrpc.ClientReceivedMessagesPerRPCView,
	"other": ocgrpc.ClientServerLatencyView,
}, 2: {
	"completed": ocgrpc.ServerCompletedRPCsView, "latency": ocgrpc.ServerLatencyView, "sent": ocgrpc.ServerSentBytesPerRPCView,
	"received": ocgrpc.ServerReceivedBytesPerRPCView, "sentmsgs": ocgrpc.ServerSentMessagesPerRPCView, "recvmsgs": ocgrpc.ServerReceivedMessagesPerRPCView,
	"other": {Name: "zzother", Measure: ocgrpc.ServerLatency, Aggregation: view.Count()},
}}
var names = []string{"completed", "latency", "sent", "received", "sentmsgs", "recvmsgs", "other"}
var methodKey = [3]tag.Key{1: ocgrpc.KeyClientMethod, 2: ocgrpc.KeyServerMethod}
var statusKey = [3]tag.Key{1: ocgrpc.KeyClientStatus, 2: ocgrpc.KeyServerStatus}
var statuses = []string{"", "OK", "CANCELLED", "UNKNOWN", "INTERNAL", "ok"}

// bytes are counted in units that are both a whole number of thousandths of
// KiB and of MB
const unit = 128000

// row is a line of the page, as text
type row struct {
	method, cnt, err, lat, rate, in, out string
}

var cell = regexp.MustCompile(`(?s)<td[^>]*>(.*?)</td>`)

func pageText(r *rand.Rand) ([2][]row, bool) {
	var b bytes.Buffer
	zpages.WriteTextRpczPage(&b)
	var out [2][]row
	d := -1
	for _, ln := range strings.Split(b.String(), "\n") {
		switch f := strings.Fields(ln); {
		case ln == "Sent:":
			d = 0
		case ln == "Received:":
			d = 1
		case len(f) == 0 || f[0] == "Method" || f[0] == "Min":
		default:
			if len(f) == 18 {
				f = append([]string{""}, f...)
			}
			if d < 0 || len(f) != 19 {
				panic("unreadable page: " + ln)
			}
			out[d] = append(out[d], row{f[0], f[3], f[18], f[6], f[9], f[12], f[15]})
		}
	}
	return out, d == 1
}

func pageHTML(r *rand.Rand) ([2][]row, bool) {
	var doc string
	switch r.Intn(3) {
	case 0:
		var b bytes.Buffer
		zpages.WriteHTMLRpczPage(&b)
		doc = b.String()
	case 1:
		var b bytes.Buffer
		zpages.WriteHTMLRpczSummary(&b)
		doc = b.String()
	default:
		w := httptest.NewRecorder()
		q, _ := http.NewRequest("GET", "/rpcz", nil)
		zpages.Handler.ServeHTTP(w, q)
		doc = w.Body.String()
	}
	var out [2][]row
	i, j := strings.Index(doc, "<font size=+2>Sent</font>"), strings.Index(doc, "<font size=+2>Received</font>")
	if i < 0 || j < i {
		return out, false
	}
	for d, part := range []string{doc[i:j], doc[j:]} {
		for _, tr := range strings.Split(part, "<tr>")[1:] {
			cs := cell.FindAllStringSubmatch(tr, -1)
			if len(cs) < 20 {
				continue
			}
			var f []string
			for _, c := range cs {
				f = append(f, html.UnescapeString(c[1]))
			}
			m := strings.TrimSuffix(strings.TrimPrefix(f[0], "<b>"), "</b>")
			// columns: method, gap, then six times three figures and a gap
			out[d] = append(out[d], row{m, f[4], f[24], f[8], f[12], f[16], f[20]})
		}
	}
	return out, true
}

func num(s string) int {
	if s == " " {
		return 0
	}
	if f := strings.Fields(s); len(f) == 2 && f[1] == "M" { // a million or more, to three places
		if n, err := strconv.ParseFloat(f[0], 64); err == nil && n >= 1 && n < 2000 && len(f[0]) == strings.Index(f[0], ".")+4 {
			return int(math.Round(n*1000)) * 1000
		}
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// scaled is the number times k, or -1
func scaled(s string, k float64) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.Abs(f*k) > 2.1e9 {
		return -1
	}
	return int(math.Round(f * k))
}

// show reads the page in one of its formats.
func show(r *rand.Rand, intern func(string) (int, bool)) M {
	text := r.Intn(2) == 0
	rows, ok := [2][]row{}, false
	if text {
		rows, ok = pageText(r)
	} else {
		rows, ok = pageHTML(r)
	}
	var out [2][]M
	for d := range rows {
		ok = ok && sort.SliceIsSorted(rows[d], func(i, j int) bool { return rows[d][i].method < rows[d][j].method })
		out[d] = []M{}
		for _, w := range rows[d] {
			id, mine := intern(w.method)
			if !mine {
				continue
			}
			e := M{"m": id, "cnt": num(w.cnt), "err": num(w.err), "text": text}
			if text {
				l, err := time.ParseDuration(w.lat)
				if err != nil {
					l = -1
				}
				e["lat"], e["tol"] = int(l/time.Microsecond), 1
				e["rate"], e["rs"] = scaled(w.rate, 100), 100
				e["inp"], e["out"], e["ds"] = scaled(w.in, 100), scaled(w.out, 100), unit/1024*100
			} else {
				e["lat"], e["tol"] = scaled(w.lat, 1000), 1000
				if strings.Contains(w.lat, ".") {
					e["tol"] = 1
				}
				e["rate"], e["rs"] = scaled(w.rate, 1000), 1000
				e["inp"], e["out"], e["ds"] = scaled(w.in, 1000), scaled(w.out, 1000), unit/1000
			}
			out[d] = append(out[d], e)
		}
	}
	return M{"sorted": ok, "rows": out}
}

var methods = []string{"a.B/c", "a.B/d", "z/Z", "<x>&y", "A", "a", "", "/"}

// synthetic delivers made-up view data over virtual time.
func synthetic(r *rand.Rand, tr *vlib.Trace) {
	t0 := time.Now()
	reset(t0)
	defer reset(t0)
	var in vlib.Intern[string]
	now := 0
	ms := append([]string{}, methods...)
	r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	ms = ms[:1+r.Intn(4)]
	// by direction, view, method and status: count and sum
	type key struct {
		d    int
		v, m string
		st   int
	}
	n, s := map[key]int{}, map[key]int{}
	for i := 2 + r.Intn(14); i > 0; i-- {
		if now == 0 || r.Intn(2) == 0 {
			k := vlib.Pick(r, []int{1, 1, 2, 7, 59, 60, 61, 600, 3600, 9000})
			if now+k < 20000 {
				time.Sleep(time.Duration(k) * time.Second)
				now += k
			}
		}
		if r.Intn(3) == 0 {
			e := show(r, func(m string) (int, bool) { return in.ID(m), true })
			e["t"] = now
			tr.Call("page", e)
			continue
		}
		d, v := 1+r.Intn(2), vlib.Pick(r, names)
		vd := &view.Data{View: views[d][v], Start: t0, End: time.Now()}
		rows := []M{}
		for _, m := range ms {
			if r.Intn(3) == 0 {
				continue
			}
			sts := []int{0}
			if v == "completed" {
				sts = r.Perm(len(statuses))[:1+r.Intn(3)]
			}
			for _, st := range sts {
				k := key{d, v, m, st}
				dn := r.Intn(8)
				if r.Intn(40) == 0 && n[k] < 1000000 { // many
					dn = vlib.Pick(r, []int{999999 - n[k], 1000000 - n[k], 999000, 1000400, 1050000})
				}
				n[k] += dn
				if dn > 0 {
					s[k] += vlib.Pick(r, []int{0, 1, 3, 10, 250, 1999})
				}
				tags := []tag.Tag{}
				if m != "" || r.Intn(2) == 0 {
					tags = append(tags, tag.Tag{Key: methodKey[d], Value: m})
				}
				if st > 0 {
					tags = append(tags, tag.Tag{Key: statusKey[d], Value: statuses[st]})
				}
				if r.Intn(3) == 0 {
					tags = append(tags, tag.Tag{Key: tag.MustNewKey("zzother"), Value: "CANCELLED"})
				}
				r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
				x := &view.Row{Tags: tags}
				sum := float64(s[k])
				if v == "sent" || v == "received" {
					sum *= unit
				}
				if v == "completed" {
					x.Data = &view.CountData{Value: int64(n[k])}
				} else {
					dd := &view.DistributionData{Count: int64(n[k])}
					if n[k] > 0 {
						dd.Mean = sum / float64(n[k])
					}
					x.Data = dd
				}
				vd.Rows = append(vd.Rows, x)
				rows = append(rows, M{"m": in.ID(m), "st": st, "n": n[k], "s": s[k]})
			}
		}
		// the order of rows is not defined
		r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i]; vd.Rows[i], vd.Rows[j] = vd.Rows[j], vd.Rows[i] })
		export(vd)
		tr.Call("deliver", M{"t": now, "d": d, "v": v, "rows": rows})
	}
	if now > 0 {
		e := show(r, func(m string) (int, bool) { return in.ID(m), true })
		e["t"] = now
		tr.Call("page", e)
	}
}

// watcher counts deliveries by view.
type watcher struct {
	mu   sync.Mutex
	cond *sync.Cond
	n    map[*view.View]int
}

func (w *watcher) ExportView(vd *view.Data) {
	w.mu.Lock()
	w.n[vd.View]++
	w.mu.Unlock()
	w.cond.Broadcast()
}

// await waits until every view was delivered k more times.
func (w *watcher) await(k int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	goal := map[*view.View]int{}
	for _, d := range []int{1, 2} {
		for v, x := range views[d] {
			if v != "other" {
				goal[x] = w.n[x] + k
			}
		}
	}
	for v, g := range goal {
		for w.n[v] < g {
			w.cond.Wait()
		}
	}
}

func bytesMeasures(d int) (sent, recv, smsg, rmsg *stats.Int64Measure, lat *stats.Float64Measure) {
	if d == 1 {
		return ocgrpc.ClientSentBytesPerRPC, ocgrpc.ClientReceivedBytesPerRPC, ocgrpc.ClientSentMessagesPerRPC, ocgrpc.ClientReceivedMessagesPerRPC, ocgrpc.ClientRoundtripLatency
	}
	return ocgrpc.ServerSentBytesPerRPC, ocgrpc.ServerReceivedBytesPerRPC, ocgrpc.ServerSentMessagesPerRPC, ocgrpc.ServerReceivedMessagesPerRPC, ocgrpc.ServerLatency
}

// live records RPC statistics and reads the page.
func live(r *rand.Rand, tr *vlib.Trace, w *watcher, no int, seq bool) {
	var in vlib.Intern[string]
	prefix := fmt.Sprintf("t%d/", no)
	mine := func(m string) (int, bool) {
		if !strings.HasPrefix(m, prefix) {
			return 0, false
		}
		return in.ID(m), true
	}
	work := func(th int, r *rand.Rand, k int) {
		for ; k > 0; k-- {
			if r.Intn(4) == 0 {
				tr.Inv(th, "live", nil)
				tr.Ret(th, "live", show(r, mine))
				continue
			}
			d, st, l := 1+r.Intn(2), vlib.Pick(r, []int{1, 1, 2, 3}), r.Intn(50)
			m := fmt.Sprintf("%s%c", prefix, 'a'+r.Intn(3))
			tr.Inv(th, "rec", M{"d": d, "m": in.ID(m), "st": st, "l": l})
			sent, recv, smsg, rmsg, lat := bytesMeasures(d)
			ctx, _ := tag.New(context.Background(), tag.Upsert(methodKey[d], m), tag.Upsert(statusKey[d], statuses[st]))
			if r.Intn(3) == 0 { // a method of the other direction in the context, too
				ctx, _ = tag.New(ctx, tag.Upsert(methodKey[3-d], "zz"))
			}
			stats.Record(ctx, sent.M(int64(r.Intn(5000))), recv.M(int64(r.Intn(5000))), smsg.M(int64(r.Intn(3))), rmsg.M(int64(r.Intn(3))), lat.M(float64(l)))
			tr.Ret(th, "rec", nil)
		}
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		if seq {
			work(1, r, 1+r.Intn(5))
		} else {
			seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
			k := 1 + r.Intn(4)
			vlib.Par(tr, 1+r.Intn(3), func(th int) { work(th, rand.New(rand.NewSource(seeds[th-1])), k) })
		}
		view.Find("zz") // the recordings are behind us in the worker's queue
		w.await(3)
		tr.Call("sync", nil)
		tr.Inv(1, "live", nil)
		tr.Ret(1, "live", show(r, mine))
	}
}

func TestRpcz(t *testing.T) {
	e := vlib.Open(t)
	if e.Mode == "live" {
		w := &watcher{n: map[*view.View]int{}}
		w.cond = sync.NewCond(&w.mu)
		view.RegisterExporter(w)
		view.SetReportingPeriod(3 * time.Millisecond)
		no := 0
		e.Run(func(r *rand.Rand, tr *vlib.Trace) { no++; live(r, tr, w, no, no%2 == 0) })
		return
	}
	if !inpkg {
		e.Close()
		return
	}
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(t, func(*testing.T) { synthetic(r, tr) })
	})
}
