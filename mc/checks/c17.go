package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// alien is a collection no encoder knows.
type alien struct {
	event.Collection
	sig string
}

func (a alien) Signature() string { return a.sig }

// claims is a binary of another size than its data, or whose data can not be
// read to its end.
type claims struct {
	format.Binary
	n    uint64
	bad  bool
	none bool
}

func (b claims) Size() uint64 { return b.n }
func (b claims) Data() io.Reader {
	if b.none {
		return nil
	}
	if b.bad {
		return io.MultiReader(b.Binary.Data(), badIn{})
	}
	return b.Binary.Data()
}

// NewBinary is a binary of the library.
func NewBinary(name string, data []byte, m Meta) format.Binary {
	return rapio.NewBinary(name, data, m.Real())
}

// disguised is a collection that says it holds events and does not.
type disguised struct{ format.CaptureCollection }

func (disguised) Signature() string { return Event }

// hollow is a collection of which some captures are missing.
type hollow struct {
	format.CaptureCollection
	all bool
}

func (h hollow) Captures() []format.Capture {
	out := append([]format.Capture{}, h.CaptureCollection.Captures()...)
	for i := range out {
		if h.all || i == len(out)-1 {
			out[i] = nil
		}
	}
	return out
}

func (h hollow) CaptureAt(i int) format.Capture { return h.Captures()[i] }

// lists are the parts of one recording while it is built.
type lists struct {
	colls []format.CaptureCollection
	recs  []format.Recording
	bins  []format.Binary
	refs  []format.BinaryReference
}

// build makes the library's recording; at each node edit may change its parts.
func build(r *Rec, edit func(r *Rec, l *lists)) format.Recording {
	l := &lists{}
	flat := *r
	flat.Recs = nil
	x := flat.Real()
	l.colls, l.bins, l.refs = x.CaptureCollections(), x.Binaries(), x.BinaryReferences()
	for _, s := range r.Recs {
		l.recs = append(l.recs, build(s, edit))
	}
	edit(r, l)
	return format.NewRecording(r.ID, r.Name, l.colls, l.recs, r.Meta.Real(), l.bins, l.refs)
}

func insert[T any](a []T, i int, x T) []T {
	out := append([]T{}, a[:i]...)
	return append(append(out, x), a[i:]...)
}

var badNames = []string{"nil collection", "nil sub-recording", "nil binary", "nil reference", "unknown collection", "empty unknown collection", "collection without signature", "collection with a prefix of a known signature",
	"position collection with other captures", "euler collection with other captures", "float collection with other captures", "event collection with other captures", "enum collection with other captures",
	"position collection with a nil capture", "euler collection with a nil capture", "float collection with a nil capture", "event collection with a nil capture", "enum collection with a nil capture",
	"position collection of nil captures", "euler collection of nil captures", "float collection of nil captures", "event collection of nil captures", "enum collection of nil captures"}

// spoil puts bad part k at position i (0 first, 1 middle, 2 last).
func spoil(l *lists, k, i int) {
	at := func(n int) int { return []int{0, n / 2, n}[i] }
	un := func(sig string, n int) format.CaptureCollection {
		return alien{event.NewCollection("odd", make([]event.Capture, n)), sig}
	}
	switch k {
	case 0:
		l.colls = insert(l.colls, at(len(l.colls)), format.CaptureCollection(nil))
	case 1:
		l.recs = insert(l.recs, at(len(l.recs)), format.Recording(nil))
	case 2:
		l.bins = insert(l.bins, at(len(l.bins)), format.Binary(nil))
	case 3:
		l.refs = insert(l.refs, at(len(l.refs)), format.BinaryReference(nil))
	case 4:
		l.colls = insert(l.colls, at(len(l.colls)), un("verif.unknown", 1))
	case 5:
		l.colls = insert(l.colls, at(len(l.colls)), un("verif.unknown", 0))
	case 6:
		l.colls = insert(l.colls, at(len(l.colls)), un("", 0))
	case 7:
		l.colls = insert(l.colls, at(len(l.colls)), un("recolude.even", 0))
	case 8, 9, 10, 12:
		l.colls = insert(l.colls, at(len(l.colls)), un([]string{Pos, Euler, Float, "", Enum}[k-8], 1))
	case 13, 14, 15, 16, 17, 18, 19, 20, 21, 22:
		j := (k - 13) % 5
		x := (&Rec{Colls: []Coll{[]Coll{posColl(2), eulColl(2), fltColl(2), evtColl(2), enmColl(2)}[j]}}).Real().CaptureCollections()[0]
		l.colls = insert(l.colls, at(len(l.colls)), format.CaptureCollection(hollow{x, k >= 18}))
	case 11:
		l.colls = insert(l.colls, at(len(l.colls)), format.CaptureCollection(disguised{(&Rec{Colls: []Coll{posColl(2)}}).Real().CaptureCollections()[0]}))
	}
}

// refused checks that a write fails before its first byte.
func refused(c *eng.Ctx, what string, encs []encoding.Encoder, compress bool, r format.Recording) {
	d := &badDest{call: -1, budget: -1}
	n, err := writeWithTo(c, encs, compress, d, r)
	if err == nil {
		c.Fail("%s: the write succeeds with %d bytes", what, len(d.accepted))
	}
	if len(d.accepted) != 0 {
		c.Fail("%s: the write fails after %d bytes have been written", what, len(d.accepted))
	}
	if n != 0 {
		c.Fail("%s: the failed write reports %d bytes", what, n)
	}
	c.State(what, err)
}

func writeWithTo(c *eng.Ctx, encs []encoding.Encoder, compress bool, d *badDest, r format.Recording) (n int, err error) {
	c.NoPanic("write", func() { n, err = rapio.NewWriter(encs, compress, d, rapio.Raw64).Write(r) })
	return
}

// nodes lists a tree depth first.
func nodes(r *Rec) []*Rec {
	out := []*Rec{r}
	for _, s := range r.Recs {
		out = append(out, nodes(s)...)
	}
	return out
}

// partsSmall gives a node 0-2 of the other parts around the bad one.
func partsSmall(c *eng.Ctx, r *Rec) {
	switch c.Free(4) {
	case 3:
		r.ID, r.Name = "", ""
	case 1:
		r.Colls = []Coll{posColl(1)}
		r.Bins = []Bin{{Name: "b", Data: []byte("x")}}
		r.Refs = []Ref{{Name: "r"}}
	case 2:
		r.Colls = []Coll{evtColl(2), fltColl(1), posColl(0)}
		r.Bins = []Bin{{Name: "b", Data: []byte("x")}, {Name: "c"}}
		r.Refs = []Ref{{Name: "r"}, {Name: "s"}}
	}
}

func init() {
	reg(&eng.Check{
		ID: "C17", Level: "model_checking",
		Assumptions: []string{"a missing root recording is refused by a panic that names it before anything is written, as the existing tests require; the check accepts an error there as well"},
		Phases: []eng.Phase{
			{Name: "one bad part", Bound: "23 kinds of unrepresentable part at 3 positions in every node of every tree of at most 3 (thorough 4) recordings over 4 part sets (one without a name), compressed or not", Body: func(c *eng.Ctx) {
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				g := &Gen{c: c}
				m := g.SmallTree(n, func(r *Rec, i int) { partsSmall(c, r) })
				ns := nodes(m)
				bad := ns[c.Free(len(ns))]
				k, i := c.Free(len(badNames)), c.Free(3)
				comp := c.Free(2) == 1
				what := fmt.Sprintf("%s at position %d of %s", badNames[k], i, bad.ID)
				c.Describe(func() string { return what + " in " + m.String() })
				refused(c, what, Encs(Full), comp, build(m, func(r *Rec, l *lists) {
					if r == bad {
						spoil(l, k, i)
					}
				}))
			}},
			{Name: "two bad parts", Bound: "2 unrepresentable parts of 23 kinds in every pair of nodes of every tree of 3 recordings", Body: func(c *eng.Ctx) {
				g := &Gen{c: c}
				m := g.SmallTree(3, func(r *Rec, i int) { r.Colls = []Coll{posColl(1)} })
				ns := nodes(m)
				a, b := c.Free(len(ns)), c.Free(len(ns))
				k, l := c.Free(len(badNames)), c.Free(len(badNames))
				what := fmt.Sprintf("%s in %s and %s in %s", badNames[k], ns[a].ID, badNames[l], ns[b].ID)
				c.Describe(func() string { return what + " in " + m.String() })
				refused(c, what, Encs(Full), false, build(m, func(r *Rec, ls *lists) {
					if r == ns[a] {
						spoil(ls, k, 2)
					}
					if r == ns[b] {
						spoil(ls, l, 0)
					}
				}))
			}},
			combos("combinations", 2, 2, ", and one of 23 kinds of unrepresentable part in one of its recordings", nil, func(c *eng.Ctx, m *Rec) {
				ns := nodes(m)
				bad := ns[[]int{0, 1, len(ns) - 1}[c.Free(3)]%len(ns)]
				k := c.Free(len(badNames))
				c.Describe(func() string { return fmt.Sprintf("%s at the end of %s in %s", badNames[k], bad.ID, m) })
				done := false
				refused(c, badNames[k], Encs(Full), false, build(m, func(r *Rec, l *lists) {
					if r == bad && !done {
						done = true
						spoil(l, k, 2)
					}
				}))
			}),
			{Name: "encoders", Bound: "all 32 encoder sets x all 32 sets of kinds at 2 places, full or empty collections: refused exactly when a kind has no encoder, otherwise complete", Body: func(c *eng.Ctx) {
				have, kinds, kids := c.Free(32), c.Free(32), 0
				switch c.Free(3) {
				case 1:
					kids = 31
				case 2:
					kids = kinds ^ 31
				}
				n := c.Free(2) * 2
				comp := c.Free(2) == 1
				m := &Rec{ID: "root", Meta: Meta{{"k", Val{Kind: VInt, I: 1}}}, Recs: []*Rec{{ID: "kid", Recs: []*Rec{{ID: "grand"}}}, {ID: "last"}}}
				for i, k := range Order {
					if kinds>>i&1 == 1 {
						m.Colls = append(m.Colls, oneColl(k, n))
					}
					if kids>>i&1 == 1 {
						m.Recs[0].Recs[0].Colls = append(m.Recs[0].Recs[0].Colls, oneColl(k, 2))
					}
				}
				var encs []encoding.Encoder
				for i, e := range Encs(Full) {
					if have>>i&1 == 1 {
						encs = append(encs, e)
					}
				}
				c.Describe(func() string { return fmt.Sprintf("encoders %05b %s", have, m.String()) })
				if (kinds|kids)&^have != 0 {
					refused(c, fmt.Sprintf("kinds %05b and %05b with encoders %05b", kinds, kids, have), encs, comp, m.Real())
					return
				}
				d := &badDest{call: -1, budget: -1}
				if _, err := writeWithTo(c, encs, comp, d, m.Real()); err != nil {
					c.Fail("kinds %05b and %05b with encoders %05b: the write fails: %v", kinds, kids, have, err)
				}
				got, _ := MustRead(c, d.accepted)
				Same(c, "the written recording reads back differently", m, got, nil)
				c.State(d.accepted)
			}},
			{Name: "deep and wide", Bound: "23 kinds of part at depths 0-40 of a chain and at 5 places among 300 siblings", Body: func(c *eng.Ctx) {
				k, i := c.Free(len(badNames)), c.Free(3)
				m := &Rec{ID: "root"}
				var bad *Rec
				if c.Free(2) == 0 {
					d := c.Free(41)
					cur := m
					for j := 0; j <= 40; j++ {
						if j == d {
							bad = cur
						}
						nx := &Rec{ID: fmt.Sprint("d", j), Colls: []Coll{enmColl(1)}}
						cur.Recs = append(cur.Recs, nx)
						cur = nx
					}
				} else {
					p := []int{0, 1, 127, 128, 299}[c.Free(5)]
					for j := 0; j < 300; j++ {
						m.Recs = append(m.Recs, &Rec{ID: fmt.Sprint("w", j), Colls: []Coll{fltColl(1)}})
					}
					bad = m.Recs[p]
				}
				what := fmt.Sprintf("%s at position %d of %s", badNames[k], i, bad.ID)
				c.Describe(func() string { return what })
				refused(c, what, Encs(Full), false, build(m, func(r *Rec, l *lists) {
					if r == bad {
						spoil(l, k, i)
					}
				}))
			}},
			{Name: "default writer", Bound: "NewRecoludeWriter on all 32 sets of kinds at 3 depths", Body: func(c *eng.Ctx) {
				kinds, depth := c.Free(32), c.Free(3)
				m := &Rec{ID: "root", Recs: []*Rec{{ID: "kid", Recs: []*Rec{{ID: "grand"}}}}}
				at := nodes(m)[depth]
				for i, k := range Order {
					if kinds>>i&1 == 1 {
						at.Colls = append(at.Colls, oneColl(k, 2))
					}
				}
				c.Describe(m.String)
				d := &badDest{call: -1, budget: -1}
				var n int
				var err error
				c.NoPanic("write", func() { n, err = rapio.NewRecoludeWriter(d).Write(m.Real()) })
				if err != nil {
					if kinds>>4 == 0 {
						c.Fail("the default writer refuses kinds it has encoders for: %v", err)
					}
					if n != 0 || len(d.accepted) != 0 {
						c.Fail("the default writer refuses a recording after %d bytes (reports %d)", len(d.accepted), n)
					}
				} else {
					got, _ := MustRead(c, d.accepted)
					Same(c, "the written recording reads back differently", m, got, shapeOnly())
				}
				c.State(kinds, depth, n)
			}},
			{Name: "sizes", Bound: "a binary of 0 to 40 or 70000 bytes that claims to be up to 3 bytes shorter or longer, or whose data fails or is nil, in every node of a tree of 3, alone, first or last, compressed or not", Body: func(c *eng.Ctx) {
				n := c.Free(6)
				n = []int{0, 1, 2, 40, 4096, 70000}[n]
				diff := c.Free(9) - 3 // 4: the data fails, 5: there is no reader for it
				place, at := c.Free(3), c.Free(3)
				comp := c.Free(2) == 1
				if n+diff < 0 {
					c.Skip()
				}
				m := &Rec{ID: "root", Recs: []*Rec{{ID: "kid", Recs: []*Rec{{ID: "grand"}}}}}
				target := nodes(m)[place]
				x := claims{NewBinary("odd", bytes.Repeat([]byte("d"), n), nil), uint64(n + diff), diff == 4, diff == 5}
				if diff >= 4 {
					x.n = uint64(n)
				}
				r := build(m, func(r *Rec, l *lists) {
					if r == target {
						if at > 0 {
							l.bins = append(l.bins, NewBinary("honest", []byte("data"), nil))
						}
						l.bins = insert(l.bins, at/2, format.Binary(x))
					}
				})
				d := &badDest{call: -1, budget: -1}
				_, err := writeWithTo(c, Encs(Full), comp, d, r)
				if (err == nil) != (diff == 0) && !(n == 0 && diff == 5) {
					c.Fail("a binary with %d bytes that claims %d, failing=%v: the write ends with %v", n, x.n, x.bad, err)
				}
				c.State(n, diff, place, at, comp)
			}},
			{Name: "missing root", Bound: "a nil recording, compressed or not, with and without encoders", Body: func(c *eng.Ctx) {
				comp := c.Free(2) == 1
				encs := Encs(Full)
				if c.Free(2) == 1 {
					encs = nil
				}
				var b bytes.Buffer
				var err error
				p, _ := eng.Catch(func() { _, err = rapio.NewWriter(encs, comp, &b, rapio.Raw64).Write(nil) })
				c.Step(1)
				if p == nil && err == nil {
					c.Fail("writing a missing recording succeeds")
				}
				if e, ok := p.(error); p != nil && (!ok || e.Error() != "can not write nil recording") {
					c.Fail("writing a missing recording crashes: %v", p)
				}
				if b.Len() != 0 {
					c.Fail("writing a missing recording wrote %d bytes", b.Len())
				}
				c.State(comp, len(encs))
			}},
			{Name: "nothing in it", Bound: "empty and absent lists in every combination, with every encoder set size: the write succeeds", Body: func(c *eng.Ctx) {
				l := [4]int{c.Free(2), c.Free(2), c.Free(2), c.Free(2)}
				ls := lists{}
				if l[0] == 1 {
					ls.colls = []format.CaptureCollection{}
				}
				if l[1] == 1 {
					ls.recs = []format.Recording{}
				}
				if l[2] == 1 {
					ls.bins = []format.Binary{}
				}
				if l[3] == 1 {
					ls.refs = []format.BinaryReference{}
				}
				md := metadata.EmptyBlock()
				if c.Free(2) == 1 {
					md = metadata.Block{}
				}
				encs := Encs(Full)[:c.Free(6)]
				d := &badDest{call: -1, budget: -1}
				r := format.NewRecording("id", "name", ls.colls, ls.recs, md, ls.bins, ls.refs)
				if _, err := writeWithTo(c, encs, c.Free(2) == 1, d, r); err != nil {
					c.Fail("writing an empty recording fails: %v", err)
				}
				got, _ := MustRead(c, d.accepted)
				Same(c, "an empty recording reads back differently", &Rec{ID: "id", Name: "name"}, got, nil)
				c.State(l[0], l[1], l[2], l[3], len(encs))
			}},
		},
	})
}
