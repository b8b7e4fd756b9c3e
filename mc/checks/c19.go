package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// disordered lists "recording id|recording name|collection name" of every
// collection in which some capture is earlier than the one before it.
func disordered(r *Rec) (out [][3]string) {
	for _, c := range r.Colls {
		for i := 1; i < len(c.Caps); i++ {
			if c.Caps[i].T < c.Caps[i-1].T {
				out = append(out, [3]string{r.ID, r.Name, c.Name})
				break
			}
		}
	}
	for _, s := range r.Recs {
		out = append(out, disordered(s)...)
	}
	return
}

// checkValid validates under one of 4 option sets.
func checkValid(c *eng.Ctx, m *Rec, real format.Recording, mode int) {
	var err error
	c.NoPanic("validation", func() {
		switch mode {
		case 0:
			err = format.Validate(real)
		case 1:
			err = format.Validate(real, format.RequireChronologicalCapture(true))
		case 2:
			err = format.Validate(real, format.RequireChronologicalCapture(false))
		case 3:
			err = format.Validate(real, format.RequireChronologicalCapture(false), format.RequireChronologicalCapture(true))
		}
	})
	bad := disordered(m)
	if mode == 2 {
		bad = nil
	}
	switch {
	case err == nil && len(bad) > 0:
		c.Fail("collection %q of recording %q is out of order and validation reports nothing", bad[0][2], bad[0][0])
	case err != nil && len(bad) == 0:
		c.Fail("nothing is out of order and validation reports %v", err)
	case err != nil:
		named := false
		for _, b := range bad {
			named = named || strings.Contains(err.Error(), b[2]) && (strings.Contains(err.Error(), b[0]) || strings.Contains(err.Error(), b[1]))
		}
		if !named {
			c.Fail("validation reports %q, out of order are %v", err, bad)
		}
	}
	Same(c, "validation changed the recording", m, Complete(c, real), nil)
	c.State(m.Hash(), mode, err)
}

func init() {
	reg(&eng.Check{
		ID: "C19", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "sequences", Bound: "one collection of each kind, all sequences of at most 4 (thorough 5) times over 8", Body: func(c *eng.Ctx) {
				kind := Order[c.Free(5)]
				mode := c.Free(4)
				max := 4
				if c.Tier == "thorough" {
					max = 5
				}
				al := []float64{1, 2, 0, -1, math.Nextafter(1, 0), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}
				ts := make([]float64, c.Free(max+1))
				for i := range ts {
					ts[i] = al[c.Free(len(al))]
				}
				m := &Rec{ID: "rec-i", Name: "rec-n", Colls: []Coll{timed(kind, "coll", ts)}}
				c.Describe(m.String)
				checkValid(c, m, m.Real(), mode)
			}},
			{Name: "trees", Bound: "all trees of at most 3 (thorough 4) recordings, each with 0-2 collections in order, at rest or out of order at the start or the end", Body: func(c *eng.Ctx) {
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				mode := c.Free(3)
				pats := [][]float64{{1, 2, 3}, {1, 1, 1}, {2, 1, 3}, {1, 3, 2}, {5}, {}}
				g := &Gen{c: c}
				m := g.SmallTree(n, func(r *Rec, i int) {
					r.Name = fmt.Sprint("name", i)
					k := c.Free(9)
					if k < 6 {
						r.Colls = append(r.Colls, timed(Order[(i+k)%5], fmt.Sprint("c", i, "a"), pats[k]))
					} else if k < 8 {
						r.Colls = append(r.Colls, timed(Order[i], fmt.Sprint("c", i, "a"), pats[(k-6)*2]), timed(Order[4-i], fmt.Sprint("c", i, "b"), pats[3]))
					}
				})
				c.Describe(m.String)
				checkValid(c, m, m.Real(), mode)
			}},
			{Name: "long", Bound: "collections of 2 to 300 captures, out of order at no place or at any one place, in each of 3 nodes", Body: func(c *eng.Ctx) {
				n := []int{2, 3, 17, 64, 128, 300}[c.Free(6)]
				at := c.Free(n)
				kind := Order[c.Free(5)]
				ts := make([]float64, n)
				for i := range ts {
					ts[i] = float64(i) * 0.25
				}
				if at > 0 {
					ts[at] = ts[at-1] - 0.001
				}
				m := &Rec{ID: "ra", Name: "na", Recs: []*Rec{{ID: "rb", Name: "nb", Recs: []*Rec{{ID: "rc", Name: "nc"}}}}}
				x := nodes(m)[c.Free(3)]
				x.Colls = []Coll{posColl(3), timed(kind, "long", ts), evtColl(2)}
				c.Describe(func() string { return fmt.Sprintf("%d captures out of order at %d in %s", n, at, x.ID) })
				checkValid(c, m, m.Real(), 0)
			}},
			sizesPhase(5000, 70000, ", in order or with the last two captures of the largest collection, or of one in the last recording, or of one in the deepest, out of order", func(c *eng.Ctx, m *Rec) {
				var x *Coll
				ns := nodes(m)
				long := func(from []*Rec) {
					for _, n := range from {
						for i := range n.Colls {
							if len(n.Colls[i].Caps) > 1 && (x == nil || len(n.Colls[i].Caps) >= len(x.Caps)) {
								x = &n.Colls[i]
							}
						}
					}
				}
				switch c.Free(4) {
				case 1:
					long(ns)
				case 2:
					l := ns[len(ns)-1]
					l.Colls = append(l.Colls, posColl(3))
					long([]*Rec{l})
				case 3:
					l, at := m, 0
					var deep func(r *Rec, d int)
					deep = func(r *Rec, d int) {
						if d >= at {
							l, at = r, d
						}
						for _, s := range r.Recs {
							deep(s, d+1)
						}
					}
					deep(m, 0)
					l.Colls = append(l.Colls, evtColl(2))
					long([]*Rec{l})
				}
				if x != nil {
					k := len(x.Caps)
					x.Name = "the long one"
					x.Caps = append([]Cap{}, x.Caps...)
					x.Caps[k-1].T = x.Caps[k-2].T - 1
				}
				checkValid(c, m, m.Real(), 0)
			}),
			{Name: "details", Bound: "all recordings that differ from a rich base in at most D details", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				g := FullGen(c)
				g.Big = false
				m := g.Rec()
				c.Describe(m.String)
				checkValid(c, m, m.Real(), 1)
			}},
			{Name: "loaded", Bound: "every file of both families, loaded", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				mode := c.Free(4)
				c.Describe(func() string { return f.Name })
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				checkValid(c, Complete(c, rec), rec, mode)
			}},
		},
	})
}
