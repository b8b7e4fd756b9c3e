package checks

import (
	"fmt"
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// modelSlice is what a slice must be.
func modelSlice(r *Rec, b, e float64, bins bool) *Rec {
	o := &Rec{ID: r.ID, Name: r.Name, Meta: r.Meta, Refs: r.Refs}
	if bins {
		o.Bins = r.Bins
	}
	for _, c := range r.Colls {
		n := Coll{Kind: c.Kind, Name: c.Name, Members: c.Members}
		for _, x := range c.Caps {
			if b <= x.T && x.T < e {
				n.Caps = append(n.Caps, x)
			}
		}
		o.Colls = append(o.Colls, n)
	}
	for _, s := range r.Recs {
		o.Recs = append(o.Recs, modelSlice(s, b, e, bins))
	}
	return o
}

// slice calls the real code; mask says which options are given (1 begin, 2 end,
// 4 keep, 8 in reverse order).
func slice(c *eng.Ctx, r format.Recording, b, e float64, keep bool, mask int) (out format.Recording) {
	var opts []format.SliceOption
	if mask&1 != 0 {
		opts = append(opts, format.BeginningOfSlice(b))
	}
	if mask&2 != 0 {
		opts = append(opts, format.EndOfSlice(e))
	}
	if mask&4 != 0 {
		opts = append(opts, format.KeepBinariesInSlice(keep))
	}
	if mask&8 != 0 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	c.NoPanic("slice", func() { out = format.Slice(r, opts...) })
	return
}

// checkSlice slices the real recording and compares; it returns both.
func checkSlice(c *eng.Ctx, m *Rec, real format.Recording, b, e float64, keep bool, mask int) (*Rec, format.Recording) {
	wb, we, wk := math.Inf(-1), math.Inf(1), true
	if mask&1 != 0 {
		wb = b
	}
	if mask&2 != 0 {
		we = e
	}
	if mask&4 != 0 {
		wk = keep
	}
	want := modelSlice(m, wb, we, wk)
	got := slice(c, real, b, e, keep, mask)
	Same(c, fmt.Sprintf("the slice [%v, %v) differs", wb, we), want, Complete(c, got), nil)
	Same(c, "slicing changed the original", m, Complete(c, real), nil)
	return want, got
}

// edges are times and window bounds.
var edges = []float64{1, 2, 3, 0, -1, 2.5, math.Inf(-1), math.Inf(1), math.Nextafter(2, 3), math.Nextafter(2, 1), math.MaxFloat64, math.Copysign(0, -1), math.NaN()}

// timed is one collection of a kind with given times.
func timed(kind, name string, ts []float64) Coll {
	c := oneColl(kind, len(ts))
	c.Name = name
	for i := range ts {
		c.Caps[i].T = ts[i]
	}
	return c
}

func init() {
	chooseTimes := func(c *eng.Ctx, max, alphabet int) []float64 {
		ts := make([]float64, c.Free(max+1))
		for i := range ts {
			ts[i] = edges[c.Free(alphabet)]
		}
		return ts
	}
	reg(&eng.Check{
		ID: "C18", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "windows", Bound: "one collection of each kind, all sequences of at most 3 times over 5 (thorough: 4 over 7) x all windows over 13 bounds", Body: func(c *eng.Ctx) {
				kind := Order[c.Free(5)]
				n, a := 3, 5
				if c.Tier == "thorough" {
					n, a = 4, 7
				}
				m := &Rec{ID: "r", Name: "n", Colls: []Coll{timed(kind, "c", chooseTimes(c, n, a))}}
				b, e := edges[c.Free(len(edges))], edges[c.Free(len(edges))]
				c.Describe(func() string { return fmt.Sprintf("[%v, %v) of %s", b, e, m.String()) })
				w, _ := checkSlice(c, m, m.Real(), b, e, false, 3)
				c.State(m.Hash(), w.Hash())
			}},
			{Name: "boundary times", Bound: "one collection of each kind, every pair of times over 13 x all windows over 13 bounds", Body: func(c *eng.Ctx) {
				kind := Order[c.Free(5)]
				m := &Rec{ID: "r", Name: "n", Colls: []Coll{timed(kind, "c", []float64{edges[c.Free(len(edges))], edges[c.Free(len(edges))]})}}
				b, e := edges[c.Free(len(edges))], edges[c.Free(len(edges))]
				c.Describe(func() string { return fmt.Sprintf("[%v, %v) of %s", b, e, m.String()) })
				w, _ := checkSlice(c, m, m.Real(), b, e, false, 3)
				c.State(m.Hash(), w.Hash())
			}},
			{Name: "trees", Bound: "all trees of at most 3 (thorough 4) recordings over 8 part sets x 6 windows x 16 option sets x keep binaries or not", Body: func(c *eng.Ctx) {
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				g := &Gen{c: c}
				m := g.SmallTree(n, func(r *Rec, i int) { parts(c, r, i) })
				win := [][2]float64{{1, 2}, {0.5, 1.5}, {2, 1}, {1, 1}, {-5, 50}, {math.Inf(-1), 1}}[c.Free(6)]
				keep := c.Free(2) == 1
				mask := 7
				if n == 3 || len(nodes(m)) < 4 {
					mask = c.Free(16)
				}
				c.Describe(func() string { return fmt.Sprintf("%v keep %v options %04b of %s", win, keep, mask, m.String()) })
				w, _ := checkSlice(c, m, m.Real(), win[0], win[1], keep, mask)
				c.State(w.Hash())
			}},
			{Name: "details", Bound: "all recordings that differ from a rich base in at most D details x 5 windows x keep or not", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				win := [][2]float64{{0.5, 1}, {math.Inf(-1), math.Inf(1)}, {1, 100}, {3, 2}, {0, 0.75}}[c.Free(5)]
				keep := c.Free(2) == 1
				g := FullGen(c)
				g.Big = c.Tier != "thorough"
				m := g.Rec()
				c.Describe(func() string { return fmt.Sprintf("%v keep %v of %s", win, keep, m.String()) })
				w, _ := checkSlice(c, m, m.Real(), win[0], win[1], keep, 7)
				c.State(w.Hash())
			}},
			{Name: "twice", Bound: "all pairs of windows over 7 bounds x all sequences of at most 3 times over 5, in a tree of 3: the second slice is that of the intersection, and the first is not changed", Body: func(c *eng.Ctx) {
				ts := chooseTimes(c, 2, 5)
				kind := Order[c.Free(5)]
				m := &Rec{ID: "r", Bins: []Bin{{Name: "b", Data: []byte("x")}}, Colls: []Coll{timed(kind, "c", ts)}, Recs: []*Rec{{ID: "s", Recs: []*Rec{{ID: "t", Colls: []Coll{timed(kind, "d", append(ts, 2.5, 1))}}}}}}
				v := [4]float64{}
				for i := range v {
					v[i] = edges[c.Free(7)]
				}
				k1 := c.Free(2) == 1
				c.Describe(func() string { return fmt.Sprintf("%v of %s", v, m.String()) })
				real := m.Real()
				w1, got1 := checkSlice(c, m, real, v[0], v[1], k1, 7)
				w2, _ := checkSlice(c, w1, got1, v[2], v[3], true, 7)
				want := modelSlice(m, math.Max(v[0], v[2]), math.Min(v[1], v[3]), k1)
				if d := Diff(want, w2, nil); d != "" {
					panic("harness bug: " + d)
				}
				Same(c, "a later slice changed an earlier one", w1, Complete(c, got1), nil)
				Same(c, "slicing a slice changed the original", m, Complete(c, real), nil)
				c.State(w2.Hash())
			}},
			{Name: "long", Bound: "one collection of each kind of 17 to 300 captures in 5 time patterns x windows at every 7th capture, in a sub-recording", Body: func(c *eng.Ctx) {
				kind := Order[c.Free(5)]
				n := []int{17, 64, 65, 128, 300}[c.Free(5)]
				p := c.Free(5)
				ts := make([]float64, n)
				for i := range ts {
					switch p {
					case 0:
						ts[i] = float64(i)
					case 1:
						ts[i] = float64(n - i)
					case 2:
						ts[i] = float64(i / 5)
					case 3:
						ts[i] = float64(i * 7 % n)
					case 4:
						ts[i] = float64(i)
						if i == n/2 {
							ts[i] = 1
						}
					}
				}
				b := float64(c.Free(n/7+2) * 7)
				e := []float64{b + 1, b + 20, float64(n), math.Inf(1)}[c.Free(4)]
				m := &Rec{ID: "r", Recs: []*Rec{{ID: "s", Colls: []Coll{timed(kind, "c", ts), posColl(2)}}}}
				c.Describe(func() string { return fmt.Sprintf("[%v, %v) of %d captures of %s, pattern %d", b, e, n, kind, p) })
				w, _ := checkSlice(c, m, m.Real(), b, e, true, 3)
				c.State(kind, n, p, b, e, w.Hash())
			}},
			sizesPhase(5000, 70000, " x 4 windows", func(c *eng.Ctx, m *Rec) {
				n := 0.0
				for _, x := range nodes(m) {
					for _, k := range x.Colls {
						n = math.Max(n, float64(len(k.Caps)))
					}
				}
				win := [][2]float64{{math.Inf(-1), math.Inf(1)}, {1, math.Floor(n / 2)}, {n - 1, n + 5}, {5, 2}}[c.Free(4)]
				w, _ := checkSlice(c, m, m.Real(), win[0], win[1], c.Free(2) == 1, 7)
				c.State(w.Hash())
			}),
			{Name: "of loaded recordings", Bound: "every file of both families, loaded, x 5 windows x keep or not; the slice is written and read back", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				win := [][2]float64{{1, 2}, {math.Inf(-1), math.Inf(1)}, {0, 1.5}, {3, 2}, {2, 50}}[c.Free(5)]
				keep := c.Free(2) == 1
				c.Describe(func() string { return fmt.Sprintf("%v keep %v of %s", win, keep, f.Name) })
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				m := Complete(c, rec)
				w, got := checkSlice(c, m, rec, win[0], win[1], keep, 7)
				file, _ := MustWrite(c, got, Full)
				back, _ := MustRead(c, file)
				Same(c, "a slice reads back differently", w, back, nil)
				c.State(file)
			}},
		},
	})
}
