//go:build go1.25

package zpagesdrv

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
)

type sizer interface {
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
}

var (
	idRE   = regexp.MustCompile(`trace_id: (?:<b[^>]*>)?([0-9a-f]{32})(?:</b>)? span_id: ([0-9a-f]{16})`)
	rowRE  = regexp.MustCompile(`(?s)<tr[^>]*>\s*<td>([^<]*)</td>(.*?)</tr>`)
	linkRE = regexp.MustCompile(`<a href="([^"]*)">(\d+)`)
	thRE   = regexp.MustCompile(`<th[^>]*><b>\[&gt;([^\]]*)\]</b></th>`)
	numRE  = regexp.MustCompile(`<p>(\d+) Requests</p>`)
)

var ticks = []int{1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 99999, 100000, 100001,
	500000, 999999, 1000000, 1000000, 1000001, 9999999, 10000000, 10000001, 59999999, 60000000, 60000001, 99999999, 100000000, 100000001}

// TestTracez: C07.
func TestTracez(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(e.T, func(*testing.T) { tracezRun(e, r, tr) })
	})
}

type key struct{ t, s string }

func tracezRun(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	mux := http.NewServeMux()
	zpages.Handle(mux, "/debug")
	internal.LocalSpanStoreEnabled = true
	sz := internal.Trace.(sizer)
	nn := 1 + r.Intn(3)
	names := []string{}
	pre := fmt.Sprintf("s%d.%d.", e.Seed, tr.ID)
	for i := 0; i < nn; i++ {
		names = append(names, pre+vlib.Pick(r, []string{"", "a b", "a&b=c", "x<y>", "%41", "1+2", "é\"'", "a/b?c#d"})+"."+strconv.Itoa(i))
	}
	short := func(n string) string { return n[len(n)-1:] }
	ids := map[key]int{}
	type sp struct {
		s  *trace.Span
		id int
	}
	spans := []sp{}
	reg := func(x sp) {
		sc := x.s.SpanContext()
		ids[key{sc.TraceID.String(), sc.SpanID.String()}] = x.id
		spans = append(spans, x)
	}
	list := func(s string) []key {
		out := []key{}
		for _, m := range idRE.FindAllStringSubmatch(s, -1) {
			out = append(out, key{m[1], m[2]})
		}
		return out
	}
	defer func() {
		for _, ev := range tr.Ev {
			if l, ok := ev["r"].([]key); ok {
				out := []int{}
				for _, x := range l {
					id, ok := ids[x]
					if !ok {
						id = 999
					}
					out = append(out, id)
				}
				ev["r"] = out
			}
		}
	}()
	get := func(path string) string {
		w := httptest.NewRecorder()
		mux.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
		if w.Code != 200 {
			return "status " + strconv.Itoa(w.Code)
		}
		return w.Body.String()
	}
	lows := func(hs []string) []int {
		out := []int{}
		for _, h := range hs {
			d, err := time.ParseDuration(strings.TrimPrefix(h, ">"))
			if err != nil {
				d = -1000
			}
			out = append(out, int(d/time.Microsecond))
		}
		return out
	}
	// summary of the text page
	sumText := func(th int) {
		tr.Inv(th, "zsum", nil)
		var b bytes.Buffer
		zpages.WriteTextTracezSummary(&b)
		rs, hdr := []vlib.M{}, []int{}
		for _, ln := range strings.Split(b.String(), "\n") {
			if strings.HasPrefix(ln, "Name ") {
				f := strings.Fields(ln)
				hdr = lows(f[2 : len(f)-1])
			}
			if !strings.HasPrefix(ln, pre) {
				continue
			}
			for _, n := range names {
				if !strings.HasPrefix(ln, n+" ") {
					continue
				}
				v := []int{}
				for _, f := range strings.Fields(ln[len(n):]) {
					x := 0
					if f != "." {
						var err error
						if x, err = strconv.Atoi(f); err != nil {
							x = -1
						}
					}
					v = append(v, x)
				}
				rs = append(rs, vlib.M{"n": short(n), "active": v[0], "lat": v[1 : len(v)-1], "errors": v[len(v)-1]})
			}
		}
		tr.Ret(th, "zsum", vlib.M{"r": rs, "hdr": hdr})
	}
	type link struct {
		n, url string
		cnt    int
	}
	// summary of the HTML page
	sumHTML := func(th int) []link {
		links := []link{}
		tr.Inv(th, "zsum", nil)
		page := get("/debug/tracez")
		hdr := []string{}
		for _, m := range thRE.FindAllStringSubmatch(page, -1) {
			hdr = append(hdr, html.UnescapeString(m[1]))
		}
		rs := []vlib.M{}
		for _, m := range rowRE.FindAllStringSubmatch(page, -1) {
			n := html.UnescapeString(m[1])
			if !strings.HasPrefix(n, pre) {
				continue
			}
			known := false
			for _, q := range names {
				known = known || q == n
			}
			if !known {
				n = "9"
			}
			v := []int{}
			for _, a := range linkRE.FindAllStringSubmatch(m[2], -1) {
				c, _ := strconv.Atoi(a[2])
				v = append(v, c)
				links = append(links, link{n, html.UnescapeString(a[1]), c})
			}
			if len(v) < 2 {
				v = append(v, -1, -1)
			}
			rs = append(rs, vlib.M{"n": short(n), "active": v[0], "lat": v[1 : len(v)-1], "errors": v[len(v)-1]})
		}
		tr.Ret(th, "zsum", vlib.M{"r": rs, "hdr": lows(hdr)})
		return links
	}
	// every link of the summary, followed while nothing else happens
	follow := func(all bool) {
		for _, l := range sumHTML(1) {
			if !all && l.cnt == 0 && r.Intn(4) > 0 {
				continue
			}
			u, err := url.Parse(l.url)
			ty, sub := -1, -1
			if err == nil {
				ty, _ = strconv.Atoi(u.Query().Get("ztype"))
				sub, _ = strconv.Atoi(u.Query().Get("zsubtype"))
			}
			page := get("/debug/" + l.url)
			num := -1
			if m := numRE.FindStringSubmatch(page); m != nil {
				num, _ = strconv.Atoi(m[1])
			}
			tr.Call("follow", vlib.M{"n": short(l.n), "ty": ty, "sub": sub, "cnt": l.cnt, "num": num, "r": list(page)})
		}
	}
	page := func(r *rand.Rand, th int) {
		n := vlib.Pick(r, names)
		if r.Intn(12) == 0 {
			n = pre + "unknown"
		}
		ty := vlib.Pick(r, []int{0, 1, 1, 1, 1, 2, 2, 2, 3, -1, 1 << 40})
		sub := vlib.Pick(r, []int{0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, -1, 100})
		if ty == 2 {
			sub = vlib.Pick(r, []int{0, 0, 0, 1, 2, 5, 99, -3})
		}
		if ty != 2 && r.Intn(20) == 0 {
			sub = vlib.Pick(r, []int{1 << 40, -1 << 40, 1 << 62})
		}
		if ty == 2 && r.Intn(20) == 0 {
			sub = vlib.Pick(r, []int{1 << 32, 1<<32 + 5})
		}
		cl := func(x int) int { return max(-1000000, min(x, 1000000)) }
		if ty == 0 {
			sub = 0
		}
		tr.Inv(th, "page", vlib.M{"n": short(n), "ty": cl(ty), "sub": cl(sub)})
		var s string
		switch r.Intn(3) {
		case 0:
			var b bytes.Buffer
			zpages.WriteTextTracezSpans(&b, n, ty, sub)
			s = b.String()
		case 1:
			var b bytes.Buffer
			zpages.WriteHTMLTracezPage(&b, n, ty, sub)
			s = b.String()
		default:
			s = get(fmt.Sprintf("/debug/tracez?zspanname=%s&ztype=%d&zsubtype=%d", url.QueryEscape(n), ty, sub))
		}
		tr.Ret(th, "page", vlib.M{"r": list(s)})
	}
	junk := func(r *rand.Rand) {
		get("/debug/tracez?" + vlib.Pick(r, []string{"zspanname=" + url.QueryEscape(vlib.Pick(r, names)) + "&ztype=x&zsubtype=y", "zspanname=&ztype=1", "%zz",
			"ztype=99999999999999999999&zsubtype=1&zspanname=a", "zspanname=%00&ztype=2&zsubtype=-9223372036854775808"}))
	}
	name := ""
	start := func(r *rand.Rand, th int, id int) sp {
		n := name
		if n == "" {
			n = vlib.Pick(r, names)
		}
		sam := trace.NeverSample()
		if r.Intn(2) == 0 {
			sam = trace.AlwaysSample()
		}
		tr.Inv(th, "start", vlib.M{"s": id, "n": short(n)})
		ctx := context.Background()
		if r.Intn(3) == 0 {
			var sc trace.SpanContext
			r.Read(sc.TraceID[:])
			r.Read(sc.SpanID[:])
			_, s := trace.StartSpanWithRemoteParent(ctx, n, sc, trace.WithSampler(sam))
			tr.Ret(th, "start", nil)
			return sp{s, id}
		}
		_, s := trace.StartSpan(ctx, n, trace.WithSampler(sam))
		tr.Ret(th, "start", nil)
		if r.Intn(6) == 0 {
			s.SetName("renamed")
		}
		return sp{s, id}
	}
	decorate := func(r *rand.Rand, x sp) {
		if r.Intn(4) > 0 {
			return
		}
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				x.s.AddAttributes(trace.StringAttribute("k", "v\"<"), trace.Int64Attribute("n", -1), trace.BoolAttribute("b", true), trace.Float64Attribute("f", 1.5))
			case 1:
				x.s.Annotate([]trace.Attribute{trace.StringAttribute("q", "z")}, strings.Repeat("m<é", r.Intn(700)))
			case 2:
				x.s.AddMessageSendEvent(1, 2, 3)
			case 3:
				x.s.AddMessageReceiveEvent(1, 2, 3)
			}
		}
	}
	total := 0
	hair := time.Duration(0) // spans may end a hair before the next microsecond
	if e.Mode == "seq" {
		hair = vlib.Pick(r, []time.Duration{0, 1, 500, 999, 999})
	}
	end := func(th int, x sp) {
		time.Sleep(hair)
		tr.Inv(th, "end", vlib.M{"s": x.id})
		x.s.End()
		tr.Ret(th, "end", nil)
		if hair > 0 {
			time.Sleep(time.Microsecond - hair)
			total++
			tr.Call("tick", vlib.M{"d": 1})
		}
	}
	palette := []int{0, 1, 2, 5, 5, -3, 77}
	if r.Intn(2) == 0 {
		b := vlib.Pick(r, []int{-3, 0, 1, 9, 14, 100})
		palette = []int{b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6}
	}
	setcode := func(r *rand.Rand, th int, x sp) {
		if !x.s.IsRecordingEvents() {
			return
		}
		c := vlib.Pick(r, palette)
		tr.Inv(th, "setcode", vlib.M{"s": x.id, "c": c})
		x.s.SetStatus(trace.Status{Code: int32(c), Message: "st"})
		tr.Ret(th, "setcode", nil)
	}
	conf := func(r *rand.Rand, th int) {
		n := vlib.Pick(r, names)
		cs := []int{0, 1, 1, 2, 2, 3, 4, 10}
		lc, ec := vlib.Pick(r, cs), vlib.Pick(r, cs)
		tr.Inv(th, "conf", vlib.M{"n": short(n), "lc": lc, "ec": ec})
		sz.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: n, MaxRequestsSucceeded: lc, MaxRequestsErrors: ec}})
		tr.Ret(th, "conf", nil)
	}
	tick := func(d int) {
		if total+d > 1900000000 {
			d = 1
		}
		total += d
		time.Sleep(time.Duration(d) * time.Microsecond)
		tr.Call("tick", vlib.M{"d": d})
	}
	if e.Mode == "seq" {
		ts := []int{vlib.Pick(r, ticks), vlib.Pick(r, ticks), 1000000, 1000000}
		nops := 20 + r.Intn(40)
		for k := 0; k < nops; k++ {
			switch q := r.Intn(41); {
			case q == 40: // several errors under one name
				name = vlib.Pick(r, names)
				for k := 2 + r.Intn(3); k > 0; k-- {
					x := start(r, 1, len(spans)+1)
					reg(x)
					setcode(r, 1, x)
					end(1, x)
					if r.Intn(3) == 0 {
						tick(1000001)
					}
				}
				name = ""
				page(r, 1)
			case q < 8:
				reg(start(r, 1, len(spans)+1))
			case q < 16:
				if len(spans) > 0 {
					x := spans[len(spans)-1-r.Intn(min(len(spans), 4))]
					decorate(r, x)
					end(1, x)
				}
			case q < 19:
				if len(spans) > 0 {
					setcode(r, 1, spans[len(spans)-1-r.Intn(min(len(spans), 4))])
				}
			case q < 20:
				conf(r, 1)
			case q < 32:
				if r.Intn(3) == 0 {
					tick(vlib.Pick(r, ticks))
				} else {
					tick(vlib.Pick(r, ts))
				}
			case q < 37:
				page(r, 1)
			case q < 38:
				junk(r)
			case q < 39:
				sumText(1)
			default:
				follow(false)
			}
		}
		sumText(1)
		follow(true)
		for i := 0; i < 4; i++ {
			page(r, 1)
		}
		return
	}
	if r.Intn(2) == 0 {
		conf(r, 1)
	}
	var nid atomic.Int64
	for ph := 0; ph < 2+r.Intn(2); ph++ {
		for k := r.Intn(3); k > 0; k-- {
			reg(start(r, 1, int(nid.Add(1))))
		}
		tick(vlib.Pick(r, []int{5, 10, 50, 1000000, 1000000, 1000001}))
		nth := 2 + r.Intn(2)
		seeds := make([]int64, nth+1)
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		old := append([]sp{}, spans...)
		fresh := make([][]sp, nth+1)
		vlib.Par(tr, nth, func(th int) {
			r := rand.New(rand.NewSource(seeds[th]))
			for k := 0; k < 3; k++ {
				switch q := r.Intn(12); {
				case q < 2:
					fresh[th] = append(fresh[th], start(r, th, int(nid.Add(1))))
				case q < 6:
					if len(old) > 0 {
						end(th, old[len(old)-1-r.Intn(min(len(old), 3))])
					}
				case q < 8:
					if len(old) > 0 {
						x := old[len(old)-1-r.Intn(min(len(old), 3))]
						decorate(r, x)
						setcode(r, th, x)
					}
				case q < 9:
					conf(r, th)
				default:
					page(r, th)
				}
			}
		})
		for _, f := range fresh {
			for _, x := range f {
				reg(x)
			}
		}
		if r.Intn(2) == 0 {
			sumText(1)
		} else {
			follow(false)
		}
	}
}
