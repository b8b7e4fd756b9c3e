package checks

import (
	"math"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

func init() {
	body := func(g func(c *eng.Ctx) *Rec) func(c *eng.Ctx) {
		return func(c *eng.Ctx) {
			t := Full
			t.Compress = c.Free(2) == 1
			m := g(c)
			c.Describe(func() string { return techStr(t) + " " + m.String() })
			file, _ := MustWrite(c, m.Real(), t)
			got, _ := MustRead(c, file)
			Same(c, "read back recording differs", m, got, nil)
			c.State(m.Hash(), file)
		}
	}
	one := func(c *eng.Ctx, m *Rec) {
		t := Full
		t.Compress = c.Free(2) == 1
		file, _ := MustWrite(c, m.Real(), t)
		got, _ := MustRead(c, file)
		Same(c, "read back recording differs", m, got, nil)
		c.State(file)
	}
	reg(&eng.Check{
		ID: "C01", Level: "model_checking",
		Assumptions: []string{"recordings differ from the base recording in at most D details, or are trees of at most 4 recordings over 8 part sets"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "all recordings that differ from a rich 4-recording base in at most D details (texts, metadata, counts, times, values, shape, references, binaries), with and without compression", Quick: 1, Thor: 2, Body: body(func(c *eng.Ctx) *Rec { return FullGen(c).Rec() })},
			{Name: "pairs", Bound: "all recordings that differ from the base in at most D details (small alternatives)", Quick: 2, Thor: 3, Body: body(func(c *eng.Ctx) *Rec {
				g := FullGen(c)
				g.Big, g.Strs, g.Metas = false, false, false
				return g.Rec()
			})},
			combos("any combinations", 3, 4, ", compressed or not", nil, one),
			{Name: "trees", Bound: "all trees of at most 4 recordings in which each recording holds one of 8 sets of parts", Quick: 0, Thor: 0, Body: body(func(c *eng.Ctx) *Rec {
				g := &Gen{c: c}
				return g.SmallTree(4, func(r *Rec, i int) { parts(c, r, i) })
			})},
			sizesPhase(5000, 70000, ", compressed or not", one),
			{Name: "numbers", Bound: "every reference size 2^k-1, 2^k, 2^k+1, every enum value +-2^k-1, +-2^k, +-2^k+1 and every 32-bit metadata integer +-2^k-1.. among others, every k", Body: body(numRec)},
			{Name: "floats", Bound: "every power of two and its two neighbours, of both signs, as time, coordinate, value and metadata number", Body: body(fltRec)},
			{Name: "bare", Bound: "every product of empty or short: collection of each kind x name x 0 to 2 captures x members or event name x event data; reference fields; binary fields; recording fields; sub-recordings", Body: body(bare)},
		},
	})
}

// parts fills one recording of a small tree.
func parts(c *eng.Ctx, r *Rec, i int) {
	k := float64(i)
	pos := Coll{Kind: Pos, Name: "p", Caps: []Cap{{T: k, V: [3]float64{1, 2, k}}, {T: k + 1, V: [3]float64{3, 4, 5}}}}
	eu := Coll{Kind: Euler, Name: "r", Caps: []Cap{{T: k, V: [3]float64{10, 20, k}}}}
	ev := Coll{Kind: Event, Name: "e", Caps: []Cap{{T: k, Name: "n" + r.ID, Meta: Meta{{"k" + r.ID, Val{Kind: VInt, I: int32(i)}}, {"k", Val{Kind: VBool, B: true}}}}}}
	en := Coll{Kind: Enum, Name: "s", Members: []string{"m" + r.ID, "m"}, Caps: []Cap{{T: k, I: 1}, {T: k, I: 0}}}
	fl := Coll{Kind: Float, Name: "f", Caps: []Cap{{T: k, V: [3]float64{k}}, {T: k, V: [3]float64{-k}}}}
	switch c.Free(8) {
	case 0:
	case 1:
		r.Colls = []Coll{pos}
	case 2:
		r.Colls = []Coll{ev, pos}
	case 3:
		r.Colls = []Coll{en}
		r.Meta = Meta{{"k" + r.ID, Val{Kind: VStr, S: r.ID}}}
	case 4:
		r.Colls = []Coll{fl, ev}
		r.Bins = []Bin{{Name: "b" + r.ID, Data: []byte(r.ID), Meta: Meta{{"bk" + r.ID, Val{Kind: VInt, I: int32(i)}}}}}
	case 5:
		r.Refs = []Ref{{Name: "f" + r.ID, URI: "u" + r.ID, Size: uint64(i), Meta: Meta{{"rk" + r.ID, Val{Kind: VInt, I: int32(i)}}}}}
		r.Meta = Meta{{"k", Val{Kind: VInt, I: int32(i)}}}
	case 6:
		r.Colls = []Coll{eu, en, eu}
	case 7:
		r.Colls = []Coll{en, pos, en, ev, {Kind: Pos, Name: "empty"}}
	}
}

// bare builds a recording in which many parts are empty at once.
func bare(c *eng.Ctx) *Rec {
	str := func() string { return []string{"", "x"}[c.Free(2)] }
	meta := func() Meta { return []Meta{nil, {{"k", intVal(1)}}}[c.Free(2)] }
	coll := func() Coll {
		x := Coll{Kind: Order[c.Free(5)], Name: str()}
		n := c.Free(3)
		if x.Kind == Enum {
			x.Members = [][]string{nil, {""}, {"m"}, {"", "m"}}[c.Free(4)]
		}
		for i := 0; i < n; i++ {
			p := Cap{T: float64(i)}
			if x.Kind == Event {
				p.Name, p.Meta = str(), meta()
			} else if x.Kind == Enum {
				p.I = i
			}
			x.Caps = append(x.Caps, p)
		}
		return x
	}
	r := &Rec{ID: str(), Name: str(), Meta: meta()}
	switch c.Free(5) {
	case 0: // a collection
		r.Colls = []Coll{coll()}
	case 1: // two
		r.Colls = []Coll{coll(), coll()}
		return r
	case 2:
		r.Refs = []Ref{{Name: str(), URI: str(), Size: uint64(c.Free(2)), Meta: meta()}}
		if c.Free(2) == 1 {
			r.Refs = append(r.Refs, Ref{Name: str(), Meta: meta()})
		}
	case 3:
		r.Bins = []Bin{{Name: str(), Data: []byte(str()), Meta: meta()}}
		if c.Free(2) == 1 {
			r.Bins = append(r.Bins, Bin{Data: []byte(str()), Meta: meta()})
		}
	case 4:
	}
	switch c.Free(4) {
	case 1:
		r.Recs = []*Rec{{}}
	case 2:
		r.Recs = []*Rec{{ID: str(), Name: str(), Meta: meta(), Colls: []Coll{{Kind: Order[c.Free(5)], Name: str()}}, Recs: []*Rec{{}}}}
	case 3:
		r.Recs = []*Rec{{}, {Refs: []Ref{{}}}, {Bins: []Bin{{}}}}
	}
	return r
}

// numRec holds an integer near a power of two.
func numRec(c *eng.Ctx) *Rec {
	k := uint(c.Free(64))
	d := uint64(c.Free(3)) - 1
	u := uint64(1)<<k + d
	m := around()
	switch c.Free(5) {
	case 0:
		m.Refs = []Ref{{Name: "r", URI: "u", Size: u}, {Name: "s", URI: "v", Size: ^u}}
	case 1:
		m.Recs[0].Refs = []Ref{{Size: u}}
	case 2:
		m.Colls = append(m.Colls, Coll{Kind: Enum, Name: "e", Members: []string{"a", "b"}, Caps: []Cap{{T: 1, I: int(u)}, {T: 2, I: -int(u)}, {T: 3, I: 1}}})
	case 3:
		m.Recs[0].Colls = []Coll{{Kind: Enum, Name: "e", Caps: []Cap{{T: 1, I: int(^u)}}}}
	case 4:
		m.Meta = Meta{{"a", intVal(int(int32(u)))}, {"b", Val{Kind: VArr, Elem: VInt, Arr: []Val{intVal(-int(int32(u))), intVal(int(int32(u)))}}}}
	}
	return m
}

// fltRec holds a number near a power of two.
func fltRec(c *eng.Ctx) *Rec {
	e := uint64(c.Free(2048)) << 52
	f := math.Float64frombits(e + uint64(c.Free(3)) - 1)
	if c.Free(2) == 1 {
		f = -f
	}
	v := [3]float64{f, -f, f}
	return &Rec{ID: "r", Meta: Meta{{"a", Val{Kind: VF32, F: float32(f)}}, {"b", Val{Kind: VVec3, V: v}}},
		Colls: []Coll{{Kind: Pos, Name: "p", Caps: []Cap{{T: f, V: v}, {T: 1, V: v}}}, {Kind: Euler, Name: "p", Caps: []Cap{{T: f, V: v}}}, {Kind: Float, Name: "p", Caps: []Cap{{T: f, V: [3]float64{f}}}}}}
}
