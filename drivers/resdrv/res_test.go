//go:build go1.25

// Package resdrv drives the resource package.
package resdrv

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"go.opencensus.io/internal/zzv/vlib"
	"go.opencensus.io/resource"
)

type M = vlib.M

func bs(s string) []int { return vlib.Bytes([]byte(s)) }

// pairs lists labels in the order of keys
func pairs(m map[string]string) [][][]int {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := [][][]int{}
	for _, k := range ks {
		out = append(out, [][]int{bs(k), bs(m[k])})
	}
	return out
}

func decode(tr *vlib.Trace, s string) {
	m, err := resource.DecodeLabels(s)
	tr.Call("decode", M{"s": bs(s), "err": err != nil, "m": pairs(m)})
}

func encode(tr *vlib.Trace, m map[string]string) string {
	was := pairs(m)
	s := resource.EncodeLabels(m)
	if !reflect.DeepEqual(was, pairs(m)) {
		s = "changed"
	}
	tr.Call("encode", M{"m": was, "s": bs(s)})
	return s
}

const keyChars = "abcXYZ019./_-:@!#$%&'()*+;<>?[]^`{|}~\\"
const valChars = "ab =,\\\"'~!{}/019nxuU\x20"

func word(r *rand.Rand, chars string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	return string(b)
}

func length(r *rand.Rand, least int) int {
	switch r.Intn(14) {
	case 0:
		return vlib.Pick(r, []int{254, 255, 256})
	case 1:
		return 20 + r.Intn(100)
	}
	return least + r.Intn(6)
}

func labels(r *rand.Rand) map[string]string {
	m := map[string]string{}
	for i := r.Intn(5); i > 0; i-- {
		v := word(r, valChars, length(r, 0))
		if r.Intn(4) == 0 {
			b := make([]byte, length(r, 1))
			for i := range b {
				b[i] = byte(32 + r.Intn(95))
			}
			v = string(b)
		}
		m[word(r, keyChars, length(r, 1))] = v
	}
	return m
}

// odd labels need not survive, but nothing may break
func oddLabels(r *rand.Rand) map[string]string {
	m := labels(r)
	switch r.Intn(6) {
	case 0:
		m[""] = "x"
	case 1:
		m["a b"] = "x"
	case 2:
		m["k"] = "\x00\n\t\x7f"
	case 3:
		m["quøt"] = "é\u200b"
	case 4:
		m["k"] = string([]byte{0xff, 0xfe})
	default:
		m[word(r, "a=\",", 3)] = word(r, "a=\",\\", 300)
	}
	return m
}

var pieces = []string{"\"", "\\", ",", "=", "=\"", " ", "\t", "\n", "\v", "a", "b", "\\\"", "\\\\", "\\n", "\\x41", "\\x4", "\\101", "\\401", "\\1", "\\u0041", "\\u004", "\\U00000041", "\\ud800",
	"\\q", "\\'", "é", "\x00", "\x80", "\x7f", "\",", "\", ", ",,", "a=\"b\"", "a=\"b\",", "=\"\"", "\r", "\f"}

func spoil(r *rand.Rand, s string) string {
	for i := r.Intn(4); i >= 0; i-- {
		p := 0
		if len(s) > 0 {
			p = r.Intn(len(s) + 1)
		}
		switch r.Intn(6) {
		case 0:
			s = s[:p]
		case 1:
			s = s[p:]
		case 2:
			if p < len(s) {
				s = s[:p] + s[p+1:]
			}
		case 3:
			if p < len(s) {
				s = s[:p] + vlib.Pick(r, pieces) + s[p+1:]
			}
		default:
			s = s[:p] + vlib.Pick(r, pieces) + s[p:]
		}
	}
	return s
}

func text(r *rand.Rand, tr *vlib.Trace) string {
	switch r.Intn(8) {
	case 0:
		var b strings.Builder
		for i := r.Intn(12); i > 0; i-- {
			b.WriteString(vlib.Pick(r, pieces))
		}
		return b.String()
	case 1, 2:
		return spoil(r, encode(tr, labels(r)))
	case 3: // too long
		k, v := 257+r.Intn(3), r.Intn(4)
		if r.Intn(2) == 0 {
			k, v = 1+r.Intn(4), 257+r.Intn(3)
		}
		return encode(tr, labels(r)) + ",k" + word(r, "abc", k-1) + "=\"" + word(r, "abc\x20,=", v) + "\""
	case 4: // blanks
		s := encode(tr, labels(r))
		return word(r, " \t\n", r.Intn(3)) + strings.Replace(s, "\",", "\""+word(r, " \t", r.Intn(3))+","+word(r, " \n\r\f", r.Intn(3)), -1) + word(r, " ,", r.Intn(4))
	}
	return encode(tr, labels(r))
}

func codec(r *rand.Rand, tr *vlib.Trace) {
	for i := 3 + r.Intn(6); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			m := oddLabels(r)
			decode(tr, encode(tr, m))
		case 1:
			m := labels(r)
			s := encode(tr, m)
			decode(tr, s)
			if m2, err := resource.DecodeLabels(s); err == nil {
				encode(tr, m2)
			}
		default:
			decode(tr, text(r, tr))
		}
	}
}

var types = []string{"", "t", "k8s.io/container", " t ", "\t", "a b", " ", "x,y=\"", strings.Repeat("t", 300)}

func environ(r *rand.Rand, tr *vlib.Trace) {
	vars := []string{"", "OC_RESOURCE_TYPE", "OC_RESOURCE_LABELS"}
	for _, v := range vars[1:] {
		os.Unsetenv(v)
	}
	for i := 3 + r.Intn(8); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			os.Setenv(vlib.Pick(r, []string{"OC_RESOURCE", "OC_RESOURCE_LABEL", "OC_TYPE", "oc_resource_type", "RESOURCE_LABELS"}), "zz=\"q\"")
		case 1, 2:
			i, s := 1, vlib.Pick(r, types)
			if r.Intn(3) > 0 {
				i, s = 2, strings.Replace(text(r, tr), "\x00", "", -1)
			}
			if s == "" && r.Intn(2) == 0 {
				os.Unsetenv(vars[i])
			} else {
				os.Setenv(vars[i], s)
			}
			tr.Call("setenv", M{"i": i, "s": bs(s)})
		default:
			ctx, cancel := context.WithCancel(context.Background())
			if r.Intn(3) == 0 {
				cancel()
			}
			res, err := resource.FromEnv(ctx)
			cancel()
			e := M{"err": err != nil, "isnil": res == nil, "t": []int{}, "m": [][][]int{}}
			if res != nil {
				e["t"], e["m"] = bs(res.Type), pairs(res.Labels)
			}
			tr.Call("fromenv", e)
		}
	}
}

type detected struct {
	res *resource.Resource
	err error
	n   int
}

func resM(r *resource.Resource, in, tin *vlib.Intern[string]) M {
	if r == nil {
		return M{"nil": true, "t": 0, "m": [][]int{}}
	}
	t, m := 0, [][]int{}
	if r.Type != "" {
		t = tin.ID(r.Type)
	}
	for k, v := range r.Labels {
		m = append(m, []int{in.ID(k), in.ID(v)})
	}
	sort.Slice(m, func(i, j int) bool { return m[i][0] < m[j][0] })
	return M{"nil": false, "t": t, "m": m}
}

type ckey struct{}

func detect(r *rand.Rand, tr *vlib.Trace, in, tin *vlib.Intern[string], ds []detected, par bool) {
	ctx := context.WithValue(context.Background(), ckey{}, tr)
	n := len(ds)
	desc := []M{}
	before := []string{}
	for _, d := range ds {
		desc = append(desc, M{"err": d.n, "r": resM(d.res, in, tin)})
		before = append(before, fmt.Sprintf("%#v %v", d.res, d.err))
	}
	mk := func(ran *[]int, good *bool) resource.Detector {
		fs := make([]resource.Detector, n)
		for i := range ds {
			i := i
			fs[i] = func(c context.Context) (*resource.Resource, error) {
				if ran != nil {
					*ran = append(*ran, i+1)
					*good = *good && c.Value(ckey{}) == tr
				}
				return ds[i].res, ds[i].err
			}
		}
		// sometimes a list within a list
		if n > 1 && r.Intn(3) == 0 {
			a := r.Intn(n)
			b := a + r.Intn(n-a+1)
			in := resource.MultiDetector(fs[a:b:b]...)
			return resource.MultiDetector(append(append(append([]resource.Detector{}, fs[:a]...), in), fs[b:]...)...)
		}
		return resource.MultiDetector(fs...)
	}
	run := func(d resource.Detector, ran *[]int, good *bool) {
		*good = true
		res, err := d(ctx)
		no := 0
		for i, x := range ds {
			if err != nil && x.err == err {
				no = x.n
				_ = i
			}
		}
		if err != nil && no == 0 {
			no = -1
		}
		for i, x := range ds {
			*good = *good && before[i] == fmt.Sprintf("%#v %v", x.res, x.err)
		}
		tr.Call("detect", M{"ds": desc, "err": no, "r": resM(res, in, tin), "ran": append([]int{}, *ran...), "same": *good})
		// the same resources again, and a second detection from the result
		if res != nil && no == 0 && r.Intn(2) == 0 {
			r2, err2 := resource.MultiDetector(func(context.Context) (*resource.Resource, error) { return res, nil }, func(context.Context) (*resource.Resource, error) { return nil, nil })(ctx)
			ok := err2 == nil
			e := 0
			if !ok {
				e = -1
			}
			tr.Call("detect", M{"ds": []M{{"err": 0, "r": resM(res, in, tin)}, {"err": 0, "r": resM(nil, in, tin)}}, "err": e, "r": resM(r2, in, tin), "ran": []int{1, 2}, "same": *good})
		}
	}
	if !par {
		var ran []int
		var good bool
		d := mk(&ran, &good)
		run(d, &ran, &good)
		if r.Intn(2) == 0 { // the detector may be used again
			ran = nil
			run(d, &ran, &good)
		}
		return
	}
	// several goroutines use one detector
	d := mk(nil, nil)
	type out struct {
		res *resource.Resource
		err error
	}
	outs := make([]out, 4)
	vlib.Par(tr, 3, func(th int) { outs[th].res, outs[th].err = d(ctx) })
	for _, o := range outs[1:] {
		no := 0
		for _, x := range ds {
			if o.err != nil && x.err == o.err {
				no = x.n
			}
		}
		if o.err != nil && no == 0 {
			no = -1
		}
		last := n
		for i, x := range ds {
			if x.n > 0 {
				last = i + 1
				break
			}
		}
		ran := []int{}
		for i := 1; i <= last; i++ {
			ran = append(ran, i)
		}
		tr.Call("detect", M{"ds": desc, "err": no, "r": resM(o.res, in, tin), "ran": ran, "same": true})
	}
}

func detectors(r *rand.Rand, tr *vlib.Trace) {
	var in, tin vlib.Intern[string]
	pool := []*resource.Resource{}
	for i := 0; i < 4; i++ {
		x := &resource.Resource{Type: vlib.Pick(r, []string{"", "", "t", "u", "v"})}
		if r.Intn(3) > 0 {
			x.Labels = map[string]string{}
			for j := r.Intn(4); j > 0; j-- {
				x.Labels[vlib.Pick(r, []string{"a", "b", "c", ""})] = vlib.Pick(r, []string{"", "1", "2"})
			}
		}
		pool = append(pool, x)
	}
	for k := 2 + r.Intn(4); k > 0; k-- {
		ds := []detected{}
		for i := r.Intn(6); i > 0; i-- {
			switch r.Intn(10) {
			case 0: // an error, with or without a resource
				d := detected{err: fmt.Errorf("e%d", len(ds)), n: len(ds) + 1}
				if r.Intn(2) == 0 {
					d.res = vlib.Pick(r, pool)
				}
				ds = append(ds, d)
			case 1, 2:
				ds = append(ds, detected{})
			default:
				ds = append(ds, detected{res: vlib.Pick(r, pool)})
			}
		}
		detect(r, tr, &in, &tin, ds, r.Intn(4) == 0)
	}
}

func TestRes(t *testing.T) {
	e := vlib.Open(t)
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		switch r.Intn(4) {
		case 0:
			environ(r, tr)
		case 1:
			detectors(r, tr)
		default:
			codec(r, tr)
		}
	})
}

// TestEnum decodes every short text after some beginnings.
func TestEnum(t *testing.T) {
	e := vlib.Open(t)
	al := []byte("a=\"\\, ")
	depth := 5
	if e.Tier == "thorough" {
		depth = 6
	}
	var all []string
	var gen func(s string, k int)
	gen = func(s string, k int) {
		all = append(all, s)
		if k > 0 {
			for _, c := range al {
				gen(s+string([]byte{c}), k-1)
			}
		}
	}
	gen("", depth)
	ord := rand.New(rand.NewSource(e.Seed)).Perm(4 * len(all))
	next := 0
	per := len(ord)/e.N + 1
	e.Run(func(r *rand.Rand, tr *vlib.Trace) {
		for k := 0; k < per && next < len(ord); k++ {
			i := ord[next]
			next++
			decode(tr, []string{"", "a=\"", "a=\"b\"", "b=\"\\"}[i%4]+all[i/4])
		}
	})
}
