package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

var fewTechs = []Tech{{}, {Time: 1, Pos: 1, Euler: 1, Float: 1}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 2, Pos: 3, Euler: 2, Float: 2}}

func lossless(d *Decoded) bool {
	for _, t := range append(append([]byte{}, d.TimeTech...), d.BodyTech...) {
		if t > 1 {
			return false
		}
	}
	return true
}

// nearFor is the comparison between two decoders of the same file.
func nearFor(d *Decoded) *Tol {
	if lossless(d) {
		return nil
	}
	return Near(1e-9)
}

// refRead: a file of the independent encoder loads to what it says.
func refRead(c *eng.Ctx, m *Rec, t Tech) {
	file := Encode(m, t, Order).Bytes()
	d, err := Decode(file)
	if err != nil {
		panic("harness bug: the reference decoder rejects the reference encoder's file: " + err.Error())
	}
	got, n := MustRead(c, file)
	if n != d.Uncomp {
		c.Fail("the read reports %d bytes, the file has %d before compression", n, d.Uncomp)
	}
	Same(c, "a file in the established layout loads differently", d.Rec, got, nearFor(d))
	if t.Time == 0 && t.Pos == 0 && t.Euler == 0 && t.Float == 0 {
		Same(c, "a file in the established layout loads differently", m, got, nil)
	}
	c.State(file)
}

// refWrite: a file of the real writer is what the independent decoder expects.
func refWrite(c *eng.Ctx, m *Rec, t Tech) {
	file, _ := MustWrite(c, m.Real(), t)
	d, err := Decode(file)
	if err != nil {
		c.Fail("the written file leaves the established layout: %v", err)
	}
	if d.Compressed != t.Compress {
		c.Fail("compression is %v in the file, asked for %v", d.Compressed, t.Compress)
	}
	for _, x := range d.TimeTech {
		if x != t.Time {
			c.Fail("time technique %d in the file, asked for %d", x, t.Time)
		}
	}
	Same(c, "the written file says something else than the recording", m, d.Rec, Resolution(t))
	c.State(file)
}

func both(c *eng.Ctx, m *Rec, t Tech, w int) {
	c.Describe(func() string {
		return []string{"read ", "write "}[w] + techStr(t) + " " + m.String()
	})
	if w == 0 {
		refRead(c, m, t)
	} else {
		refWrite(c, m, t)
	}
}

// GoldenCases lists what the golden files were made of.
func GoldenCases() (ids []string, recs []*Rec, ts []Tech) {
	for i, f := range Family() {
		for j, t := range fewTechs {
			t.Compress = (i+j)%2 == 1
			ids = append(ids, fmt.Sprintf("%s as %s", f.Name, techStr(t)))
			recs = append(recs, f.Orig)
			ts = append(ts, t)
		}
	}
	return
}

// wide builds a recording with n of one thing, to cross count widths.
func wide(way, n int) *Rec {
	r := &Rec{ID: "w"}
	switch way {
	case 0, 1, 2, 3, 4:
		r.Colls = []Coll{oneColl(Order[way], n), oneColl(Order[way], 1)}
	case 5:
		r.Meta = manyKeys(n, "key")
	case 6:
		for i := 0; i < n; i++ {
			r.Recs = append(r.Recs, &Rec{ID: fmt.Sprint(i), Colls: []Coll{oneColl(Order[i%5], 1)}})
		}
	case 7:
		r.ID, r.Name = rep(n), rep(n+1)
		r.Bins = []Bin{{Name: rep(n), Data: raw(VBytes, n).Raw}}
		r.Refs = []Ref{{Name: rep(n), URI: rep(n), Size: uint64(n)}}
	case 8:
		c := Coll{Kind: Event, Name: "e"}
		for i := 0; i < n; i++ {
			c.Caps = append(c.Caps, Cap{T: float64(i), Name: fmt.Sprint("name", i), Meta: Meta{{fmt.Sprint("key", i), Val{Kind: VInt, I: int32(i)}}}})
		}
		r.Colls = []Coll{c}
	case 9:
		c := Coll{Kind: Enum, Name: "e"}
		for i := 0; i < n; i++ {
			c.Members = append(c.Members, fmt.Sprint("m", i))
			c.Caps = append(c.Caps, Cap{T: float64(i), I: i})
		}
		r.Colls = []Coll{c}
	case 10:
		for i := 0; i < n; i++ {
			r.Refs = append(r.Refs, Ref{Name: "r", Size: uint64(i)})
			r.Bins = append(r.Bins, Bin{Name: "b", Data: []byte{byte(i)}})
		}
	case 11:
		for i := 0; i < n; i++ {
			c := oneColl(Order[i%5], 2)
			r.Colls = append(r.Colls, c)
		}
	case 12:
		r.Meta = Meta{{"a", arr(VStr, n)}, {"b", raw(VBytes, n)}, {"c", Val{Kind: VStr, S: rep(n)}}, {"d", Val{Kind: VBlock, M: manyKeys(n, "q")}}}
	}
	return r
}

const wideWays = 13

func init() {
	sizes := []int{2, 126, 127, 128, 129, 255, 256, 257, 300}
	bigSizes := []int{16383, 16384, 16385}
	reg(&eng.Check{
		ID: "C12", Level: "model_checking",
		Assumptions: []string{"the reference codec (mc/model/codec.go) is the established layout; it is bound to the original library by golden files written by its unmodified build"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "all recordings that differ from a rich base in at most D details x 4 technique sets x compression, written by the reference and read by the library and the other way round", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				w := c.Free(2)
				t := fewTechs[c.Free(4)]
				t.Compress = c.Free(2) == 1
				g := FullGen(c)
				g.Finite = true
				g.Chrono = true
				if c.Tier == "thorough" {
					g.Big = false
				}
				both(c, g.Rec(), t, w)
			}},
			{Name: "values", Bound: "all recordings that differ in at most D details, any number included, full precision", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				w := c.Free(2)
				t := Full
				t.Compress = c.Free(2) == 1
				both(c, FullGen(c).Rec(), t, w)
			}},
			{Name: "techniques", Bound: "every combination of the techniques (108) x compression x 0-4 captures in each kind x 2 orders", Body: func(c *eng.Ctx) {
				w := c.Free(2)
				t := allTechs(c.Free(216))
				n := c.Free(5)
				m := &Rec{ID: "t", Colls: []Coll{posColl(n), eulColl(n), fltColl(n), enmColl(n), evtColl(n)}, Recs: []*Rec{{ID: "s", Colls: []Coll{fltColl(2), posColl(n)}}}}
				if c.Free(2) == 1 {
					cs := m.Colls
					cs[0], cs[4], cs[1], cs[3] = cs[4], cs[0], cs[3], cs[1]
				}
				both(c, m, t, w)
			}},
			{Name: "trees", Bound: "all trees of at most 3 (thorough 4) recordings over 8 part sets", Body: func(c *eng.Ctx) {
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				w := c.Free(2)
				g := &Gen{c: c}
				both(c, g.SmallTree(n, func(r *Rec, i int) { parts(c, r, i) }), Full, w)
			}},
			{Name: "widths", Bound: "13 ways to have many of something x 9 counts around the width boundaries of a count (also 2^14), 2 technique sets", Body: func(c *eng.Ctx) {
				w := c.Free(2)
				way := c.Free(wideWays)
				sz := append([]int{}, sizes...)
				sz = append(sz, bigSizes...)
				n := sz[c.Free(len(sz))]
				t := []Tech{{}, {Time: 2, Pos: 3, Euler: 2, Float: 2, Compress: true}}[c.Free(2)]
				m := wide(way, n)
				c.Describe(func() string { return fmt.Sprintf("%d: way %d count %d %s", w, way, n, techStr(t)) })
				if w == 0 {
					refRead(c, m, t)
				} else {
					refWrite(c, m, t)
				}
			}},
			sizesPhase(5000, 70000, ", written and read, 2 technique sets", func(c *eng.Ctx, m *Rec) {
				t := []Tech{{}, {Time: 2, Pos: 3, Euler: 2, Float: 2, Compress: true}}[c.Free(2)]
				if c.Free(2) == 0 {
					refRead(c, m, t)
				} else {
					refWrite(c, m, t)
				}
			}),
			{Name: "numbers", Bound: "every reference size, enum value and metadata integer within 1 of a power of two, written and read", Body: func(c *eng.Ctx) {
				w := c.Free(2)
				both(c, numRec(c), Full, w)
			}},
			{Name: "floats", Bound: "every power of two and its neighbours, of both signs, as time, coordinate, value and metadata number, written and read", Body: func(c *eng.Ctx) {
				w := c.Free(2)
				both(c, fltRec(c), Full, w)
			}},
			{Name: "bare", Bound: "every product of empty or short parts, written and read", Body: func(c *eng.Ctx) {
				w := c.Free(2)
				both(c, bare(c), Full, w)
			}},
			{Name: "golden", Bound: "files written by the original build load unchanged", Body: func(c *eng.Ctx) {
				ids, recs, ts := GoldenCases()
				i := c.Free(len(ids))
				b, err := base64.StdEncoding.DecodeString(Golden[ids[i]])
				if err != nil || len(b) == 0 {
					panic("harness bug: no golden file " + ids[i])
				}
				c.Describe(func() string { return ids[i] })
				if _, err := Decode(b); err != nil {
					panic("harness bug: the reference decoder rejects a golden file: " + err.Error())
				}
				rec, _, err := Read(c, bytes.NewReader(b))
				if err != nil {
					c.Fail("a file of the original build does not load: %v", err)
				}
				Same(c, "a file of the original build loads differently", recs[i], Complete(c, rec), OldResolution(ts[i]))
				c.State(ids[i])
			}},
		},
	})
}
