package checks

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// span is the model of start and end; ok is false without captures.
func span(r *Rec) (lo, hi float64, ok bool) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, n := range nodes(r) {
		for _, c := range n.Colls {
			if k := len(c.Caps); k > 0 {
				ok = true
				lo = math.Min(lo, c.Caps[0].T)
				hi = math.Max(hi, c.Caps[k-1].T)
			}
		}
	}
	return
}

// collSpan compares start, end, duration and length of every collection.
func collSpan(c *eng.Ctx, m *Rec, real format.Recording) {
	for i, x := range real.CaptureCollections() {
		k := m.Colls[i].Caps
		if x.Length() != len(k) {
			c.Fail("collection %q has length %d, it holds %d captures", x.Name(), x.Length(), len(k))
		}
		if len(k) == 0 {
			continue
		}
		a, b := k[0].T, k[len(k)-1].T
		if x.Start() != a && a == a || x.End() != b && b == b {
			c.Fail("collection %q spans %v..%v, its first and last capture are at %v and %v", x.Name(), x.Start(), x.End(), a, b)
		}
		if d := encoding.CollectionDuration(x); d != b-a && d == d {
			c.Fail("collection %q lasts %v, its first and last capture are at %v and %v", x.Name(), d, a, b)
		}
	}
	for i, x := range real.Recordings() {
		collSpan(c, m.Recs[i], x)
	}
}

// checkSpan compares start, end and duration.
func checkSpan(c *eng.Ctx, m *Rec, real format.Recording) {
	var s, e, d float64
	c.NoPanic("start", func() { s = format.RecordingStart(real) })
	c.NoPanic("end", func() { e = format.RecordingEnd(real) })
	c.NoPanic("duration", func() { d = format.RecordingDuration(real) })
	c.NoPanic("measuring a collection", func() { collSpan(c, m, real) })
	lo, hi, ok := span(m)
	c.State(m.Hash(), s, e, d)
	if !ok {
		if d != 0 {
			c.Fail("the duration of a recording without any capture is %v", d)
		}
		return
	}
	if s != lo {
		c.Fail("the start is %v, the earliest first capture is at %v", s, lo)
	}
	if e != hi {
		c.Fail("the end is %v, the latest last capture is at %v", e, hi)
	}
	unknown := math.IsInf(lo, 0) && math.IsInf(hi, 0) && (lo == hi || lo > hi)
	if d != hi-lo && !unknown {
		c.Fail("the duration is %v, from %v to %v it is %v", d, lo, hi, hi-lo)
	}
	if chronological(m) {
		for _, n := range nodes(m) {
			for _, k := range n.Colls {
				for _, x := range k.Caps {
					if x.T < s || x.T > e {
						c.Fail("a capture at %v lies outside %v..%v", x.T, s, e)
					}
				}
			}
		}
	}
	Same(c, "measuring changed the recording", m, Complete(c, real), nil)
}

// checkSummary runs the command on a file that holds m.
func checkSummary(c *eng.Ctx, m *Rec, file []byte) {
	dir, done := scratch(c)
	defer done()
	var out bytes.Buffer
	if err := app(c, nil, &out, "summarize", "--file", put(dir, "f.rap", file)); err != nil {
		c.Fail("summarizing a good file fails: %v", err)
	}
	text := out.String()
	name := m.Name
	if name == "" {
		name = "[No Name]"
	}
	rest := text
	if i := strings.Index(text, "Name:"); i < 0 {
		c.Fail("the summary has no name:\n%s", text)
	} else {
		rest = text[i+5:]
	}
	i := strings.Index(rest, name)
	if i < 0 || strings.Trim(rest[:i], " \t") != "" || !strings.HasPrefix(rest[i+len(name):], "\n") {
		c.Fail("the summary does not name %q:\n%s", name, text)
	}
	lines := strings.Split(rest[i+len(name):], "\n")
	get := func(label string) string {
		for _, l := range lines {
			if strings.HasPrefix(l, label+":") {
				return strings.TrimSpace(l[len(label)+1:])
			}
		}
		c.Fail("the summary has no line for %s:\n%s", label, text)
		return ""
	}
	counts := map[string]int{}
	for _, n := range nodes(m) {
		for _, k := range n.Colls {
			counts[k.Kind] += len(k.Caps)
		}
	}
	num := func(label string, want int) {
		got, err := strconv.Atoi(get(label))
		if err != nil || got != want {
			c.Fail("the summary says %s: %s, the recording has %d", label, get(label), want)
		}
	}
	num("Sub Recordings", len(m.Recs))
	num("Total Position Captures", counts[Pos])
	num("Total Euler Captures", counts[Euler])
	num("Total Event Captures", counts[Event])
	num("Total Enum Captures", counts[Enum])
	num("Total Other Captures", counts[Float])
	lo, hi, ok := span(m)
	want := 0.0
	if ok {
		want = hi - lo
	}
	got, err := strconv.ParseFloat(strings.TrimSuffix(get("Duration"), "s"), 64)
	if err != nil || !(abs(got-want) <= 0.00501+1e-12*abs(want)) {
		c.Fail("the summary says a duration of %s, it is %v", get("Duration"), want)
	}
	sz := get("File Size")
	unit := 1.0
	switch {
	case strings.HasSuffix(sz, "kb"):
		unit = 1024
	case strings.HasSuffix(sz, "mb"):
		unit = 1024 * 1024
	}
	v, err := strconv.ParseFloat(strings.TrimRight(sz, "kmb"), 64)
	if err != nil || abs(v*unit-float64(len(file))) > 0.0051*unit && unit > 1 || unit == 1 && v != float64(len(file)) {
		c.Fail("the summary says a file of %s, it has %d bytes", sz, len(file))
	}
	c.State(text)
}

// noFloats drops what the command line does not read.
func noFloats(r *Rec) *Rec {
	o := *r
	o.Colls, o.Recs = nil, nil
	for _, k := range r.Colls {
		if k.Kind != Float {
			o.Colls = append(o.Colls, k)
		}
	}
	for _, s := range r.Recs {
		o.Recs = append(o.Recs, noFloats(s))
	}
	return &o
}

func init() {
	fin := []float64{1, 2, 0, -3, 1e9, -1e-300, math.MaxFloat64, -math.MaxFloat64}
	reg(&eng.Check{
		ID: "C20", Level: "model_checking",
		Assumptions: []string{"start and end of a recording without captures, and the difference between two infinite times on the same side, are not specified"},
		Phases: []eng.Phase{
			{Name: "pairs", Bound: "two collections of at most 2 captures, all times over 8, in 4 arrangements of the tree, each kind", Body: func(c *eng.Ctx) {
				kind := c.Free(5)
				mk := func(k int) Coll {
					ts := make([]float64, c.Free(3))
					for i := range ts {
						ts[i] = fin[c.Free(len(fin))]
					}
					return timed(Order[k%5], fmt.Sprint("c", k), ts)
				}
				a, b := mk(kind), mk(kind+1)
				m := &Rec{ID: "r"}
				switch c.Free(4) {
				case 0:
					m.Colls = []Coll{a, b}
				case 1:
					m.Colls = []Coll{a}
					m.Recs = []*Rec{{ID: "s", Colls: []Coll{b}}}
				case 2:
					m.Recs = []*Rec{{ID: "s", Colls: []Coll{a}}, {ID: "t", Colls: []Coll{b}}}
				case 3:
					m.Recs = []*Rec{{ID: "s", Recs: []*Rec{{ID: "t", Colls: []Coll{a}, Recs: []*Rec{{ID: "u", Colls: []Coll{b}}}}}}}
				}
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
			}},
			{Name: "endless", Bound: "two collections of each kind with at most 2 captures, at infinite and other times, in one recording or in parent and child", Body: func(c *eng.Ctx) {
				l := []float64{math.Inf(-1), math.Inf(1), -math.MaxFloat64, math.MaxFloat64, -1, 2}
				kind := c.Free(5)
				mk := func(k int) Coll {
					ts := make([]float64, c.Free(3))
					for i := range ts {
						ts[i] = l[c.Free(len(l))]
					}
					return timed(Order[k%5], fmt.Sprint("c", k), ts)
				}
				a, b := mk(kind), mk(kind+1)
				m := &Rec{ID: "r", Colls: []Coll{a}}
				if c.Free(2) == 0 {
					m.Colls = append(m.Colls, b)
				} else {
					m.Recs = []*Rec{{ID: "s", Colls: []Coll{b}}}
				}
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
			}},
			{Name: "sequences", Bound: "one collection of each kind, all sequences of at most 4 times over 5", Body: func(c *eng.Ctx) {
				ts := make([]float64, c.Free(5))
				for i := range ts {
					ts[i] = fin[c.Free(5)]
				}
				m := &Rec{ID: "r", Colls: []Coll{timed(Order[c.Free(5)], "c", ts)}}
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
			}},
			{Name: "trees", Bound: "all trees of at most 4 (thorough 5) recordings, each with no capture, early, late, long or negative times", Body: func(c *eng.Ctx) {
				n := 4
				if c.Tier == "thorough" {
					n = 5
				}
				g := &Gen{c: c}
				pats := [][]float64{nil, {}, {1, 2}, {5, 6, 7}, {-4}, {0, 10}, {3}}
				m := g.SmallTree(n, func(r *Rec, i int) {
					if k := c.Free(len(pats)); k > 0 {
						r.Colls = []Coll{timed(Order[(i+k)%5], "c", pats[k])}
					}
				})
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
			}},
			sizesPhase(5000, 70000, ", measured and summarized", func(c *eng.Ctx, m *Rec) {
				checkSpan(c, m, m.Real())
				m = noFloats(m)
				file, _ := MustWrite(c, m.Real(), Full)
				checkSummary(c, m, file)
			}),
			{Name: "bare", Bound: "every product of empty or short parts, measured and summarized", Body: func(c *eng.Ctx) {
				m := bare(c)
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
				m = noFloats(m)
				file, _ := MustWrite(c, m.Real(), Full)
				checkSummary(c, m, file)
			}},
			v1Measured(),
			{Name: "file sizes", Bound: "the summary of files of 400, 1023..1025, 2047, 10000, 1048575..1048577 and 3000000 bytes, with no or with 2000 captures", Body: func(c *eng.Ctx) {
				want := []int{400, 1023, 1024, 1025, 2047, 10000, 1048575, 1048576, 1048577, 3000000}[c.Free(10)]
				m := &Rec{ID: "r", Name: "sized", Bins: []Bin{{Name: "b"}}}
				if want > 100000 && c.Free(2) == 1 {
					m.Colls = []Coll{oneColl(Pos, 2000)}
				}
				var file []byte
				for i := 0; i < 4 && len(file) != want; i++ {
					m.Bins[0].Data = make([]byte, len(m.Bins[0].Data)+want-len(file))
					file, _ = MustWrite(c, m.Real(), Full)
				}
				c.Describe(func() string { return fmt.Sprintf("a file of %d bytes", len(file)) })
				checkSummary(c, m, file)
			}},
			{Name: "summary trees", Bound: "the summary of all trees of at most 4 (thorough 5) recordings, each without collections, with an empty one, or with one capture", Body: func(c *eng.Ctx) {
				n := 4
				if c.Tier == "thorough" {
					n = 5
				}
				g := &Gen{c: c}
				m := g.SmallTree(n, func(r *Rec, i int) {
					switch c.Free(3) {
					case 1:
						r.Colls = []Coll{oneColl(Order[i%4], 0)}
					case 2:
						r.Colls = []Coll{timed(Order[i%4], "c", []float64{float64(i*i) - 3})}
					}
				})
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
				file, _ := MustWrite(c, m.Real(), Full)
				checkSummary(c, m, file)
			}},
			{Name: "summary", Bound: "the summary of all trees of at most 3 recordings over 8 part sets x 3 names", Body: func(c *eng.Ctx) {
				g := &Gen{c: c}
				m := noFloats(g.SmallTree(3, func(r *Rec, i int) { parts(c, r, i) }))
				m.Name = []string{"a name", "", "two\nlines"}[c.Free(3)]
				c.Describe(m.String)
				file, _ := MustWrite(c, m.Real(), Full)
				checkSummary(c, m, file)
			}},
			{Name: "summary details", Bound: "the summary of all recordings of finite numbers that differ from a rich base in at most D details", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				g := FullGen(c)
				g.Finite = true
				g.Big = c.Tier != "thorough"
				m := noFloats(g.Rec())
				c.Describe(m.String)
				checkSpan(c, m, m.Real())
				file, _ := MustWrite(c, m.Real(), Full)
				checkSummary(c, m, file)
			}},
			{Name: "summary of files", Bound: "every file of both families and the sample files", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				c.Describe(func() string { return f.Name })
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				m := Complete(c, rec)
				checkSpan(c, m, rec)
				if Diff(m, noFloats(m), nil) != "" {
					c.State(f.Name)
					return
				}
				checkSummary(c, m, f.Raw)
			}},
			{Name: "sizes", Bound: "the summary of files of 1000 to 3 million bytes", Body: func(c *eng.Ctx) {
				n := []int{900, 990, 1000, 1010, 1030, 10000, 100000, 1040000, 1048500, 1048600, 3000000}[c.Free(11)]
				m := &Rec{ID: "r", Name: "big", Bins: []Bin{{Name: "b", Data: make([]byte, n)}}}
				file, _ := MustWrite(c, m.Real(), Full)
				c.Describe(func() string { return fmt.Sprint(len(file), " bytes") })
				checkSummary(c, m, file)
			}},
		},
	})
}
