package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/cli"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// abc is a block with the keys first, first+1, ... of an alphabet; every value
// is different in kind or content.
func abc(first, n, tag int) (m Meta) {
	for i := 0; i < n; i++ {
		k := string(rune('a' + first + i))
		var v Val
		switch (i + tag) % 5 {
		case 0:
			v = Val{Kind: VStr, S: fmt.Sprint(k, tag)}
		case 1:
			v = Val{Kind: VInt, I: int32(100*tag + i)}
		case 2:
			v = Val{Kind: VF32, F: float32(tag) + .5}
		case 3:
			v = Val{Kind: VBool, B: i&1 == 1}
		case 4:
			v = Val{Kind: VStr, S: strings.Repeat(k, tag+i)}
		}
		m = append(m, KV{k, v})
	}
	return
}

// keyed are recordings whose dictionaries overlap in different ways.
func keyed() []*Rec {
	block := func(m Meta) Val { return Val{Kind: VBlock, M: m} }
	ev := func(name string, ms ...Meta) Coll {
		c := Coll{Kind: Event, Name: name}
		for i, m := range ms {
			c.Caps = append(c.Caps, Cap{T: float64(i), Name: fmt.Sprint("ev", i%3), Meta: m})
		}
		return c
	}
	return []*Rec{
		{ID: "1", Meta: abc(0, 2, 1)},
		{ID: "2", Meta: abc(0, 3, 1)},
		{ID: "3", Meta: abc(0, 4, 2)},
		{ID: "4", Meta: abc(0, 2, 1), Recs: []*Rec{{ID: "c", Meta: abc(1, 2, 2)}, {ID: "d", Meta: abc(0, 3, 3)}}},
		{ID: "5", Meta: abc(2, 1, 1), Refs: []Ref{{Name: "r", Meta: abc(0, 3, 2)}, {Name: "s", Meta: abc(2, 2, 3)}}, Bins: []Bin{{Name: "b", Data: []byte("1"), Meta: abc(1, 3, 4)}}},
		{ID: "6", Bins: []Bin{{Name: "b", Data: []byte{}, Meta: abc(0, 2, 2)}, {Name: "b2", Data: []byte("xy"), Meta: abc(1, 2, 3)}}, Recs: []*Rec{{Bins: []Bin{{Name: "b3", Meta: abc(3, 2, 1), Data: []byte{}}}, Meta: abc(2, 2, 2)}}},
		{ID: "7", Colls: []Coll{ev("e", abc(0, 2, 1), abc(1, 2, 2), abc(0, 3, 3))}},
		{ID: "8", Colls: []Coll{ev("e", abc(0, 3, 1), nil), posColl(2), ev("f", abc(2, 2, 2), abc(0, 1, 3))}},
		{ID: "9", Colls: []Coll{enmColl(2), {Kind: Enum, Name: "other", Members: []string{"z", "On", "y"}, Caps: []Cap{{T: 1, I: 2}, {T: 2, I: 0}}}}, Recs: []*Rec{{Colls: []Coll{ev("e", abc(1, 2, 5)), enmColl(1)}}}},
		{ID: "10", Meta: Meta{{"x", block(abc(0, 3, 2))}, {"y", block(Meta{{"p", block(abc(1, 2, 1))}, {"q", block(abc(0, 2, 3))}})}}},
		{ID: "11", Meta: Meta{{"list", Val{Kind: VArr, Elem: VBlock, Arr: []Val{block(abc(0, 2, 1)), block(abc(1, 3, 2)), block(nil)}}}}},
		{ID: "12", Colls: []Coll{ev("e", Meta{{"m", block(abc(0, 2, 1))}, {"n", block(abc(0, 2, 2))}})}, Meta: Meta{{"m", block(abc(1, 2, 3))}}},
	}
}

// orders lets the explorer choose the orders of f's map loops: single loops
// (deviations), or all by a policy.
func orders(c *eng.Ctx, policy int, f func()) {
	if policy < 0 {
		c.MapOrder()
	} else {
		c.MapPolicy(policy)
	}
	f()
	c.MapNatural()
}

func writeOrders(c *eng.Ctx, m *Rec, t Tech, policy int, lengths bool) {
	c.Describe(func() string { return techStr(t) + " " + clipS(m.String()) })
	plain, _ := MustWrite(c, m.Real(), t)
	var file []byte
	var n int
	orders(c, policy, func() { file, n = MustWrite(c, m.Real(), t) })
	if !t.Compress && lengths {
		if len(file) != len(plain) {
			c.Fail("the file has %d bytes in one order of the keys and %d in another", len(plain), len(file))
		}
		if n != len(file) {
			c.Fail("%d bytes written, %d reported", len(file), n)
		}
	}
	var got *Rec
	orders(c, policy, func() { got, _ = MustRead(c, file) })
	Same(c, "written in another order of the keys", m, got, Resolution(t))
	c.State(file)
}

func clipS(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func init() {
	recs := keyed()
	policy := func(c *eng.Ctx) int { return c.Free(eng.MapPolicies) }
	// exportOf converts a block in one of the ways; the result decoded.
	exportOf := func(c *eng.Ctx, m Meta, way int) (interface{}, error) {
		mp := metadata.NewMetadataProperty(m.Real())
		switch way {
		case 0:
			var b []byte
			var err error
			c.NoPanic("converting to JSON", func() { b, err = mp.MarshalJSON() })
			if err != nil {
				return nil, err
			}
			x, err := strictJSON(b)
			if err != nil {
				c.Fail("%s is not JSON: %v", b, err)
			}
			jm, err := jsonMeta(x.(map[string]interface{}))
			if err != nil {
				c.Fail("%s: %v", b, err)
			}
			return saidBlock(jm), nil
		default:
			var b []byte
			var err error
			c.NoPanic("converting to BSON", func() { b, err = mp.MarshalBSON() })
			if err != nil {
				return nil, err
			}
			d := &bdec{b: append([]byte{}, b...)}
			es := d.doc()
			if d.err != nil {
				c.Fail("%x is not BSON: %v", b, d.err)
			}
			return bdoc(es), nil
		}
	}
	reg(&eng.Check{
		ID: "C16", Level: "model_checking",
		Assumptions: []string{"the harness owns the order of every range over a map in the library and the command (instrumented at build time); json.Marshal of the Go library sorts keys", "lengths are compared for files with at most 128 different keys, where every key index takes one byte"},
		Phases: []eng.Phase{
			{Name: "write", Bound: "12 recordings whose dictionaries overlap, raw and compressed: every order (up to 4 keys) in up to D map loops of writing and reading", Quick: 2, Thor: 3, Body: func(c *eng.Ctx) {
				m := recs[c.Free(len(recs))]
				writeOrders(c, m, Tech{Compress: c.Free(2) == 1}, -1, true)
			}},
			{Name: "policies", Bound: "recordings differing from the base in at most D details with 6 orders for all loops", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				p := policy(c)
				comp := c.Free(2) == 1
				g := &Gen{c: c, Strs: true, Metas: true, Counts: true, Shapes: true, Extras: true}
				writeOrders(c, g.Rec(), Tech{Compress: comp}, p, true)
			}},
			combos("combinations", 2, 3, ", with 6 orders for all loops", func(g *Gen) { g.Finite, g.Chrono, g.Text = true, true, true }, func(c *eng.Ctx, m *Rec) {
				writeOrders(c, m, Tech{}, policy(c), true)
			}),
			{Name: "many keys", Bound: "5 to 300 keys in one of 5 places, or spread and shared among them: 6 orders for all loops, and every rotation (both ways) of one loop for up to 20 keys", Quick: 1, Thor: 1, Body: func(c *eng.Ctx) {
				n := []int{5, 6, 8, 20, 127, 128, 129, 300}[c.Free(8)]
				p := c.Free(eng.MapPolicies+1) - 1
				if p < 0 && n > 20 {
					c.Skip()
				}
				m := &Rec{ID: "m"}
				place := c.Free(7)
				at := func(i int, x Meta) {
					switch i {
					case 0:
						m.Meta = x
					case 1:
						m.Recs = append(m.Recs, &Rec{ID: "c", Meta: x})
					case 2:
						m.Bins = append(m.Bins, Bin{Name: "b", Data: []byte("data"), Meta: x})
					case 3:
						m.Refs = append(m.Refs, Ref{Name: "r", Meta: x})
					case 4:
						m.Colls = append(m.Colls, Coll{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "e", Meta: x}, {T: 2, Name: "f", Meta: x[len(x)/2:]}}})
					}
				}
				switch place {
				case 5: // half of the keys shared with the next place
					for i := 0; i < 5; i++ {
						at(i, manyKeys(n, "k")[i*n/8:][:n/2])
					}
				case 6: // all places have keys of their own
					for i := 0; i < 5; i++ {
						at(i, manyKeys(n/5, fmt.Sprint("k", i)))
					}
				default:
					at(place, manyKeys(n, "k"))
				}
				writeOrders(c, m, Tech{}, p, n <= 128)
			}},
			{Name: "version 1", Bound: "version 1 files whose metadata and events have 2 to 4 keys: every order in up to D loops of loading and upgrading", Quick: 2, Thor: 2, Body: func(c *eng.Ctx) {
				n := 2 + c.Free(3)
				pairs := func(tag string, n int) (o [][2]string) {
					for i := 0; i < n; i++ {
						o = append(o, [2]string{string(rune('a' + i)), fmt.Sprint(tag, i)})
					}
					return
				}
				v := &V1Rec{Name: "v", Meta: pairs("m", n)}
				v.Events = []V1Event{{T: 1, Name: "e", Contents: "x", Data: pairs("d", n)}, {T: 2, Name: "f", Data: pairs("d2", 2)}}
				v.Subjects = []V1Subject{{ID: 4, Name: "s", Meta: pairs("s", n)}, {ID: 5, Name: "t", Meta: pairs("t", 2), Events: []V1Event{{T: 2, Name: "g", Data: pairs("g", 3)}}}}
				file := V1File(v.Proto(), 1, 9)
				up := c.Free(2) == 1
				plain, _, err := Read(c, bytes.NewReader(file))
				if err != nil {
					c.Fail("loading fails: %v", err)
				}
				want := Complete(c, plain)
				if up {
					b, done := newBench(c, file, 0)
					defer done()
					var out bytes.Buffer
					orders(c, -1, func() { err = app(c, nil, &out, "upgrade", "--file", b.in) })
					if err != nil {
						c.Fail("upgrading fails in another order of the keys: %v", err)
					}
					got, _ := MustRead(c, out.Bytes())
					Same(c, "upgraded in another order of the keys", want, got, Resolution(upgradeTech))
					c.State(out.Bytes())
					return
				}
				var rec format.Recording
				orders(c, -1, func() {
					rec, _, err = Read(c, bytes.NewReader(file))
					if err == nil {
						Same(c, "loaded in another order of the keys", want, Complete(c, rec), nil)
					}
				})
				if err != nil {
					c.Fail("loading fails in another order of the keys: %v", err)
				}
				c.State(n)
			}},
			{Name: "import", Bound: "JSON documents with 2 to 4 keys in every dictionary, good and with one bad value at every place: every order in up to D loops of importing and writing, and 6 orders for all", Quick: 2, Thor: 2, Body: func(c *eng.Ctx) {
				n := 2 + c.Free(3)
				bad := c.Free(6) // 0: none
				place := c.Free(4)
				obj := func(i int) string {
					var o []string
					for k := 0; k < n; k++ {
						v := []string{"1", `"two"`, "true", `{"x":1,"y":2}`}[(k+i)%4]
						if bad > 0 && place == i && k == n/2 {
							v = []string{"[1,true]", "1e400", `[{"x":1},2]`, `[[1]]`, `{"a":[1,"b"]}`}[bad-1]
						}
						o = append(o, fmt.Sprintf("%q:%s", string(rune('a'+k+i)), v))
					}
					return "{" + strings.Join(o, ",") + "}"
				}
				doc := []byte(fmt.Sprintf(`{"id":"i","name":"n","metadata":%s,"collections":[{"name":"e","type":"recolude.event","captures":[{"time":1,"data":{"name":"go","metadata":%s}}]},{"name":"f","type":"recolude.enum","captures":[{"time":1,"data":"B"},{"time":2,"data":"A"}]}],"references":[{"name":"r","uri":"u","size":3,"metadata":%s}],"recordings":[{"id":"c","name":"child","metadata":%s}]}`, obj(0), obj(1), obj(2), obj(3)))
				c.Describe(func() string { return string(doc) })
				imp := func() (*Rec, error) {
					var rec format.Recording
					var err error
					c.NoPanic("importing", func() { rec, err = parsing.FromJSON(doc) })
					if err != nil {
						return nil, err
					}
					return Complete(c, rec), nil
				}
				want, werr := imp()
				var got *Rec
				var err error
				orders(c, c.Free(eng.MapPolicies+1)-1, func() {
					got, err = imp()
					if err == nil {
						writeOrders2(c, got)
					}
				})
				if (err == nil) != (werr == nil) {
					c.Fail("importing gives %v in one order of the keys and %v in another", werr, err)
				}
				if err == nil {
					Same(c, "imported in another order of the keys", want, got, nil)
				}
				c.State(n, bad, place)
			}},
			{Name: "export", Bound: "blocks of the same recordings and every kind of value next to others, as JSON, BSON and through to-json: every order in up to D loops, and 6 orders for all", Quick: 2, Thor: 3, Body: func(c *eng.Ctx) {
				if c.Free(2) == 0 {
					m := recs[c.Free(len(recs))]
					file, _ := MustWrite(c, m.Real(), Tech{})
					var out bytes.Buffer
					var err error
					orders(c, c.Free(eng.MapPolicies+1)-1, func() { err = app(c, bytes.NewReader(file), &out, "to-json") })
					if err != nil {
						c.Fail("to-json fails in another order of the keys: %v", err)
					}
					checkExport(c, m, out.Bytes())
					c.State(out.String())
					return
				}
				vs := kindVals()
				i := c.Free(len(vs))
				n := 2 + c.Free(3)
				var m Meta
				for k := 0; k < n; k++ {
					m = append(m, KV{string(rune('a' + k)), vs[(i+k)%len(vs)]})
				}
				c.Describe(func() string { return fmt.Sprint(m) })
				way := c.Free(2)
				want, werr := exportOf(c, m, way)
				var got interface{}
				var err error
				orders(c, c.Free(eng.MapPolicies+1)-1, func() { got, err = exportOf(c, m, way) })
				if (err == nil) != (werr == nil) {
					c.Fail("converting gives %v in one order of the keys and %v in another", werr, err)
				}
				if got != want {
					c.Fail("converting gives different documents:\n%v\n%v", want, got)
				}
				c.State(i, n, way, got)
			}},
			{Name: "tables", Bound: "CSV tables of up to 5 rows and 4 subjects in every arrangement: every order in up to D loops, 6 orders for all, of importing and of from-csv", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				n := 2 + c.Free(4)
				rows := csvRows(n, func(i int) (string, string) { return string(rune('d' - c.Free(minInt(i+1, 4)))), "n" })
				doc := plainCSV().table(rows)
				c.Describe(func() string { return doc })
				want, err := csvMeans(doc)
				if err != nil {
					panic(err)
				}
				p := c.Free(eng.MapPolicies+1) - 1
				if c.Free(2) == 0 {
					var rec format.Recording
					orders(c, p, func() {
						c.NoPanic("importing CSV", func() { rec, err = cli.ZZRecordingFromCSV(strings.NewReader(doc)) })
					})
					if err != nil {
						c.Fail("importing fails: %v", err)
					}
					Same(c, "imported in another order", tagless(want), tagless(Complete(c, rec)), nil)
					c.State(doc, p)
					return
				}
				b, done := newBench(c, []byte(doc), 0)
				defer done()
				var out bytes.Buffer
				orders(c, p, func() { err = app(c, nil, &out, "from-csv", "--file", b.in) })
				if err != nil {
					c.Fail("from-csv fails: %v", err)
				}
				got, _ := MustRead(c, out.Bytes())
				Same(c, "imported in another order", tagless(want), tagless(got), nil)
				c.State(doc, p, "command")
			}},
		},
	})
}

// writeOrders2 writes what was imported, in the orders in force.
func writeOrders2(c *eng.Ctx, m *Rec) {
	var b bytes.Buffer
	var err error
	c.NoPanic("write", func() { _, err = rapio.NewWriter(Encs(Tech{}), false, io.Writer(&b), rapio.Raw64).Write(m.Real()) })
	if err != nil {
		c.Fail("writing fails in another order of the keys: %v", err)
	}
	got, _ := MustRead(c, b.Bytes())
	Same(c, "written in another order of the keys", m, got, nil)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
