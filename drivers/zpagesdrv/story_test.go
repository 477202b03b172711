//go:build go1.25

package zpagesdrv

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
)

var (
	lineRE = regexp.MustCompile(`^\s*(?:(?:(\d{4}/\d\d/\d\d)-)?(\d\d:\d\d:\d\d\.\d{6}))?\s*(-?\d*\.[ \d]{6}|-?\d+s)?\s*(.*?)\s*$`)
	headRE = regexp.MustCompile(`^trace_id: (?:<b style="color:(\w+)">)?([0-9a-f]{32})(?:</b>)? span_id: ([0-9a-f]{16})(?: parent_span_id: ([0-9a-f]{16}))?$`)
	msgRE  = regexp.MustCompile(`^(sent|received) message \[(-?\d+) bytes, (-?\d+) compressed bytes\]$`)
	statRE = regexp.MustCompile(`^Status\{canonicalCode=(.*), description=(".*")\}$`)
)

var texts = []string{"plain", "a<b>&\"'x", "comma, k1=2}", "é世界", "Attributes", "100%d %", "[sent]"}
var values = []string{"", "v", "a b", "<i>&amp;", "q\"uote\\", "x, k2=\"y\"", "}", "é\n", "5"}

// attrKeys are in order.
var attrKeys = []string{"k", "k-", "k.a", "k1", "k10", "k2", "kA", "k_", "k\"q"}

func init() { sort.Strings(attrKeys) }

func hms(s string) []int {
	t, err := time.Parse("15:04:05.000000", s)
	if err != nil {
		return []int{-7, -7}
	}
	return []int{t.Hour()*3600 + t.Minute()*60 + t.Second(), t.Nanosecond() / 1000}
}

func day(s string, t0 time.Time) int {
	if s == "" {
		return -1
	}
	t, err := time.Parse("2006/01/02", s)
	if err != nil {
		return -7
	}
	return int(t.Sub(t0) / (24 * time.Hour))
}

func elapsed(s string) []int {
	if s == "" {
		return []int{}
	}
	if strings.HasSuffix(s, "s") {
		n, _ := strconv.Atoi(strings.TrimSuffix(s, "s"))
		return []int{n, -1}
	}
	p := strings.SplitN(s, ".", 2)
	sec, us := 0, -7
	if p[0] != "" {
		sec, _ = strconv.Atoi(p[0])
	}
	if n, err := strconv.Atoi(strings.TrimSpace(p[1])); err == nil {
		us = n
	}
	return []int{sec, us}
}

// attrs reads "Attributes:{k1=v, k2="w"}".
func readAttrs(s string) [][]interface{} {
	bad := [][]interface{}{{-7, s}}
	if !strings.HasPrefix(s, "Attributes:{k") || !strings.HasSuffix(s, "}") {
		return bad
	}
	s = strings.TrimPrefix(s, "Attributes:{")
	out := [][]interface{}{}
	for {
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return bad
		}
		k := sort.SearchStrings(attrKeys, s[:i])
		if k == len(attrKeys) || attrKeys[k] != s[:i] {
			return bad
		}
		s = s[i+1:]
		v := ""
		if q, err := strconv.QuotedPrefix(s); err == nil {
			v, _ = strconv.Unquote(q)
			v = "s:" + v
			s = s[len(q):]
		} else {
			i := strings.IndexAny(s, ",}")
			if i < 0 {
				return bad
			}
			v, s = "v:"+s[:i], s[i:]
		}
		out = append(out, []interface{}{k, v})
		if s == "}" {
			return out
		}
		if !strings.HasPrefix(s, ", ") {
			return bad
		}
		s = s[2:]
	}
}

func readText(s string) (string, int) {
	if len(s) >= 200 && strings.Trim(s, "x") == "" {
		return "x", len(s)
	}
	return s, 0
}

// shown reads the spans of a page's lines.
func shown(lines []string, isHTML bool, t0 time.Time) []vlib.M {
	out := []vlib.M{}
	for _, ln := range lines {
		m := lineRE.FindStringSubmatch(ln)
		if m == nil || strings.TrimSpace(ln) == "" {
			continue
		}
		txt := m[4]
		if h := headRE.FindStringSubmatch(txt); h != nil {
			d := day(m[1], t0)
			out = append(out, vlib.M{"tid": h[2], "sid": h[3], "par": h[4], "col": h[1], "day": d, "time": hms(m[2]), "dur": elapsed(m[3]),
				"status": []string{}, "attrs": [][]interface{}{}, "events": []vlib.M{}})
			continue
		}
		if isHTML {
			txt = html.UnescapeString(txt)
		}
		if len(out) == 0 {
			out = append(out, vlib.M{"sid": "none: " + txt})
			continue
		}
		x := out[len(out)-1]
		if m[2] == "" {
			evs, _ := x["events"].([]vlib.M)
			st, _ := x["status"].([]string)
			at, _ := x["attrs"].([][]interface{})
			if s := statRE.FindStringSubmatch(txt); s != nil && len(st) == 0 && len(at) == 0 && len(evs) == 0 {
				d, err := strconv.Unquote(s[2])
				if err != nil {
					d = "bad"
				}
				x["status"] = []string{s[1], d}
			} else if len(at) == 0 && len(evs) == 0 {
				x["attrs"] = readAttrs(txt)
			} else {
				x["attrs"] = [][]interface{}{{-8, txt}}
			}
			continue
		}
		e := vlib.M{"day": day(m[1], t0), "time": hms(m[2]), "el": elapsed(m[3])}
		if s := msgRE.FindStringSubmatch(txt); s != nil {
			u, _ := strconv.Atoi(s[2])
			c, _ := strconv.Atoi(s[3])
			e["b"] = vlib.M{"k": s[1], "u": u, "c": c}
		} else {
			kv := [][]interface{}{}
			if i := strings.LastIndex(txt, "  Attributes:{"); i >= 0 {
				kv = readAttrs(txt[i+2:])
				txt = txt[:i]
			}
			t, n := readText(txt)
			e["b"] = vlib.M{"k": "note", "txt": t, "len": n, "kvs": kv}
		}
		evs, _ := x["events"].([]vlib.M)
		x["events"] = append(evs, e)
	}
	return out
}

// TestStory: C37.
func TestStory(t *testing.T) {
	old := time.Local
	time.Local = time.UTC
	defer func() { time.Local = old }()
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		synctest.Test(e.T, func(*testing.T) { storyRun(e, r, tr) })
	})
}

func storyRun(e *vlib.Env, r *rand.Rand, tr *vlib.Trace) {
	mux := http.NewServeMux()
	zpages.Handle(mux, vlib.Pick(r, []string{"/debug", "/debug/", "/debug/x"}))
	base := "/debug/tracez"
	if w := httptest.NewRecorder(); true {
		mux.ServeHTTP(w, httptest.NewRequest("GET", base, nil))
		if w.Code != 200 {
			base = "/debug/x/tracez"
		}
	}
	t0 := time.Now()
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	pre := fmt.Sprintf("y%d.%d.", e.Seed, tr.ID)
	names := []string{pre + "a", pre + "b c"}[:1+r.Intn(2)]
	type sp struct {
		s  *trace.Span
		nm string
	}
	var spans []sp
	total := time.Duration(0)
	tick := func() {
		d := vlib.Pick(r, []time.Duration{0, 1, 499, 999, 1000, 1001, time.Microsecond * 45, time.Millisecond, 999999 * time.Microsecond, time.Second - 1, time.Second, time.Second + 1,
			1500 * time.Millisecond, 59 * time.Second, time.Hour, 11 * time.Hour, 24*time.Hour - 1, 24 * time.Hour, 31 * 24 * time.Hour, 31 * 24 * time.Hour, 99999*time.Second + 999999*time.Microsecond, 100000 * time.Second})
		if r.Intn(3) > 0 {
			d = vlib.Pick(r, []time.Duration{1, 700, 1000, 1500 * time.Nanosecond, 2 * time.Second, 1100 * time.Millisecond})
		}
		total += d
		time.Sleep(d)
		tr.Call("tick", vlib.M{"s": int(d / time.Second), "ns": int(d % time.Second)})
	}
	attrs := func(n int) ([]trace.Attribute, [][]interface{}) {
		as, l := []trace.Attribute{}, [][]interface{}{}
		ks := r.Perm(len(attrKeys))
		for i := 0; i < n; i++ {
			k := attrKeys[ks[i]]
			switch r.Intn(5) {
			case 0, 1:
				v := vlib.Pick(r, values)
				as, l = append(as, trace.StringAttribute(k, v)), append(l, []interface{}{ks[i], "s:" + v})
			case 2:
				v := vlib.Pick(r, []int64{0, -1, 1 << 60, 5})
				as, l = append(as, trace.Int64Attribute(k, v)), append(l, []interface{}{ks[i], fmt.Sprint("v:", v)})
			case 3:
				v := r.Intn(2) == 0
				as, l = append(as, trace.BoolAttribute(k, v)), append(l, []interface{}{ks[i], fmt.Sprint("v:", v)})
			default:
				v := vlib.Pick(r, []float64{0, 1.5, -2.25, 1e30})
				as, l = append(as, trace.Float64Attribute(k, v)), append(l, []interface{}{ks[i], fmt.Sprint("v:", v)})
			}
		}
		return as, l
	}
	page := func() {
		n := vlib.Pick(r, names)
		ty := vlib.Pick(r, []int{0, 0, 1, 1, 1, 2})
		sub := 0
		if ty == 1 {
			sub = vlib.Pick(r, []int{0, 1, 2, 5, 6, 7, 8})
		}
		var b bytes.Buffer
		var ls []string
		h, num := true, -1
		switch r.Intn(3) {
		case 0:
			zpages.WriteTextTracezSpans(&b, n, ty, sub)
			h = false
			ls = strings.Split(b.String(), "\n")[1:]
		case 1:
			zpages.WriteHTMLTracezSpans(&b, n, ty, sub)
		default:
			w := httptest.NewRecorder()
			mux.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("%s?zspanname=%s&ztype=%d&zsubtype=%d", base, url.QueryEscape(n), ty, sub), nil))
			b = *w.Body
		}
		if h {
			s := b.String()
			if m := numRE.FindStringSubmatch(s); m != nil {
				num, _ = strconv.Atoi(m[1])
			} else {
				num = -7
			}
			i := strings.LastIndex(s, "<pre>")
			s = s[i+1:]
			if j := strings.Index(s, "</pre>"); j >= 0 && i >= 0 {
				s = s[:j]
			}
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "When ") || strings.HasPrefix(l, "-----") || strings.HasPrefix(l, "pre>") {
					continue
				}
				ls = append(ls, l)
			}
		}
		tr.Call("page", vlib.M{"n": n, "ty": ty, "num": num, "spans": shown(ls, h, t0)})
	}
	defer trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: 32, MaxAnnotationEventsPerSpan: 32, MaxMessageEventsPerSpan: 128})
	for k := 15 + r.Intn(40); k > 0; k-- {
		q := r.Intn(32)
		if len(spans) == 0 {
			q = 0
		}
		if q < 3 {
			la, ln, lm := 1+r.Intn(6), 1+r.Intn(6), 1+r.Intn(6)
			trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: la, MaxAnnotationEventsPerSpan: ln, MaxMessageEventsPerSpan: lm})
			samp := r.Intn(2) == 0
			sam := trace.NeverSample()
			if samp {
				sam = trace.AlwaysSample()
			}
			n := vlib.Pick(r, names)
			par := ""
			var s *trace.Span
			ctx := context.Background()
			switch r.Intn(3) {
			case 0:
				_, s = trace.StartSpan(ctx, n, trace.WithSampler(sam))
			case 1:
				var sc trace.SpanContext
				r.Read(sc.TraceID[:])
				r.Read(sc.SpanID[:])
				par = sc.SpanID.String()
				_, s = trace.StartSpanWithRemoteParent(ctx, n, sc, trace.WithSampler(sam))
			default:
				if len(spans) > 0 {
					p := vlib.Pick(r, spans)
					ctx = trace.NewContext(ctx, p.s)
					par = p.s.SpanContext().SpanID.String()
				}
				_, s = trace.StartSpan(ctx, n, trace.WithSampler(sam))
			}
			sc := s.SpanContext()
			spans = append(spans, sp{s, n})
			tr.Call("start", vlib.M{"s": len(spans), "n": n, "la": la, "ln": ln, "lm": lm, "tid": sc.TraceID.String(), "sid": sc.SpanID.String(), "par": par, "samp": samp})
			continue
		}
		i := len(spans) - 1 - r.Intn(min(len(spans), 3))
		x, id := spans[i], i+1
		switch {
		case q < 10:
			tick()
		case q < 15:
			as, l := attrs(vlib.Pick(r, []int{0, 0, 0, 1, 2, 3}))
			txt, n := vlib.Pick(r, texts), 0
			if r.Intn(6) == 0 {
				txt, n = "x", vlib.Pick(r, []int{200, 1023, 1024, 1025, 1500, 5000})
				if n <= 1024 {
					as, l = nil, [][]interface{}{}
				}
			}
			tr.Call("annotate", vlib.M{"s": id, "b": vlib.M{"k": "note", "txt": txt, "len": n, "kvs": l}})
			if n > 0 {
				txt = strings.Repeat("x", n)
			}
			x.s.Annotate(as, txt)
		case q < 19:
			u, c := r.Intn(2000)-3, r.Intn(2000)-3
			if r.Intn(2) == 0 {
				tr.Call("message", vlib.M{"s": id, "b": vlib.M{"k": "sent", "u": u, "c": c}})
				x.s.AddMessageSendEvent(int64(r.Intn(9)), int64(u), int64(c))
			} else {
				tr.Call("message", vlib.M{"s": id, "b": vlib.M{"k": "received", "u": u, "c": c}})
				x.s.AddMessageReceiveEvent(int64(r.Intn(9)), int64(u), int64(c))
			}
		case q < 21:
			as, l := attrs(1 + r.Intn(3))
			tr.Call("attrs", vlib.M{"s": id, "kvs": l})
			x.s.AddAttributes(as...)
		case q < 22:
			c, m := vlib.Pick(r, []int{0, 0, 1, 2, 13, 14, 16, 17, -1, 1000}), vlib.Pick(r, []string{"", "st", "bad <thing>", "q\"\n"})
			tr.Call("setstatus", vlib.M{"s": id, "code": c, "smsg": m})
			x.s.SetStatus(trace.Status{Code: int32(c), Message: m})
		case q < 23:
			tr.Call("setname", vlib.M{"s": id, "name": "renamed"})
			x.s.SetName("renamed")
		case q < 26:
			tr.Call("end", vlib.M{"s": id})
			x.s.End()
		default:
			page()
		}
	}
	for i := 0; i < 3; i++ {
		page()
	}
	for i := range spans {
		tr.Call("end", vlib.M{"s": i + 1})
		spans[i].s.End()
	}
	page()
	page()
}
