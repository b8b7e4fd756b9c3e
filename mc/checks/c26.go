package checks

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
	"go.mongodb.org/mongo-driver/bson"
)

// bdec is an independent BSON decoder which gives a canonical text.
type bdec struct {
	b   []byte
	err error
}

func (d *bdec) take(n int) []byte {
	if d.err != nil || n < 0 || n > len(d.b) {
		if d.err == nil {
			d.err = fmt.Errorf("document ends early")
		}
		return make([]byte, 64)
	}
	o := d.b[:n]
	d.b = d.b[n:]
	return o
}

func (d *bdec) i32() int { return int(int32(binary.LittleEndian.Uint32(d.take(4)))) }
func (d *bdec) i64() int64 {
	return int64(binary.LittleEndian.Uint64(d.take(8)))
}

func (d *bdec) cstr() string {
	for i, x := range d.b {
		if x == 0 {
			return string(d.take(i + 1)[:i])
		}
	}
	d.err = fmt.Errorf("unterminated name")
	return ""
}

type bel struct{ k, v string }

// doc reads one document and gives its elements.
func (d *bdec) doc() (out []bel) {
	n := d.i32()
	body := &bdec{b: d.take(n - 4), err: d.err}
	for body.err == nil {
		t := body.take(1)[0]
		if t == 0 {
			break
		}
		k := body.cstr()
		out = append(out, bel{k, body.val(t)})
	}
	if body.err == nil && len(body.b) > 0 {
		body.err = fmt.Errorf("%d bytes after the end of a document", len(body.b))
	}
	if body.err != nil {
		d.err = body.err
	}
	return
}

func (d *bdec) val(t byte) string {
	switch t {
	case 1:
		return numText(math.Float64frombits(uint64(d.i64())))
	case 2:
		n := d.i32()
		s := d.take(n)
		if d.err == nil && (n < 1 || s[n-1] != 0) {
			d.err = fmt.Errorf("bad string")
			return ""
		}
		if d.err != nil {
			return ""
		}
		return fmt.Sprintf("s%q", s[:n-1])
	case 3:
		return bdoc(d.doc())
	case 4:
		var o []string
		for i, e := range d.doc() {
			if e.k != fmt.Sprint(i) {
				d.err = fmt.Errorf("array index %q at %d", e.k, i)
			}
			o = append(o, e.v)
		}
		return "[" + strings.Join(o, " ") + "]"
	case 5:
		n := d.i32()
		d.take(1)
		return "b" + fmt.Sprintf("%x", d.take(n))
	case 8:
		return fmt.Sprint(d.take(1)[0] == 1)
	case 9:
		return fmt.Sprint("t", d.i64())
	case 16:
		return numText(float64(d.i32()))
	case 18:
		return numText(float64(d.i64()))
	}
	d.err = fmt.Errorf("unexpected type %d", t)
	return ""
}

func bdoc(es []bel) string {
	var o []string
	for _, e := range es {
		o = append(o, fmt.Sprintf("%q:%s", e.k, e.v))
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

// bsonSays is the text expected; times are given as found when they fit.
func bsonSays(v Val) string {
	switch v.Kind {
	case VStr:
		return fmt.Sprintf("s%q", v.S)
	case VInt:
		return numText(float64(v.I))
	case VF32:
		return numText(float64(v.F))
	case VBool:
		return fmt.Sprint(v.B)
	case VByte:
		return numText(float64(v.By))
	case VBytes:
		return "b" + fmt.Sprintf("%x", v.Raw)
	case VTime:
		ms := v.T / 1000
		if v.T%1000 < 0 {
			ms--
		}
		return fmt.Sprint("t", ms)
	case VVec2:
		return bdoc([]bel{{"x", numText(v.V[0])}, {"y", numText(v.V[1])}})
	case VVec3:
		return bdoc([]bel{{"x", numText(v.V[0])}, {"y", numText(v.V[1])}, {"z", numText(v.V[2])}})
	case VBlock:
		return bsonDoc(v.M)
	case VBoolArr, VArr:
		var o []string
		for _, b := range v.Raw {
			o = append(o, fmt.Sprint(b&1 == 1))
		}
		for _, e := range v.Arr {
			o = append(o, bsonSays(e))
		}
		return "[" + strings.Join(o, " ") + "]"
	}
	return "?"
}

func bsonDoc(m Meta) string {
	var es []bel
	for _, kv := range m {
		es = append(es, bel{kv.K, bsonSays(kv.V)})
	}
	return bdoc(es)
}

func hasNUL(m Meta) bool {
	for _, kv := range m {
		if strings.Contains(kv.K, "\x00") || hasNUL(kv.V.M) {
			return true
		}
		for _, e := range kv.V.Arr {
			if hasNUL(e.M) {
				return true
			}
		}
	}
	return false
}

// viaBSON checks a block's BSON document.
func viaBSON(c *eng.Ctx, m Meta) { viaBSONReal(c, m, m.Real()) }

func viaBSONReal(c *eng.Ctx, m Meta, real metadata.Block) {
	mp := metadata.NewMetadataProperty(real)
	want := bsonDoc(m)
	for way := 0; way < 3; way++ {
		var doc []byte
		var err error
		c.NoPanic("converting metadata to BSON", func() {
			switch way {
			case 0:
				doc, err = mp.MarshalBSON()
			case 1:
				doc, err = bson.Marshal(mp)
			case 2:
				doc, err = bson.Marshal(bson.M{"wrapped": mp})
			}
		})
		if hasNUL(m) {
			if err == nil {
				c.Fail("a key with a NUL byte is converted to BSON")
			}
			continue
		}
		if err != nil {
			c.Fail("%s is not converted to BSON (way %d): %v", want, way, err)
		}
		d := &bdec{b: append([]byte{}, doc...)}
		es := d.doc()
		if d.err == nil && len(d.b) > 0 {
			d.err = fmt.Errorf("%d surplus bytes", len(d.b))
		}
		if d.err == nil {
			d.err = bson.Raw(doc).Validate()
		}
		if d.err != nil {
			c.Fail("%s is converted to malformed BSON %x: %v", want, doc, d.err)
		}
		got, exp := bdoc(es), want
		if way == 2 {
			exp = fmt.Sprintf("{%q:%s}", "wrapped", want)
		}
		if got != exp {
			c.Fail("%s is converted to BSON %s", exp, got)
		}
		c.Step(1)
	}
	after, err := FromBlock(real)
	if err != nil {
		c.Fail("converting broke the block: %v", err)
	}
	if d := DiffMeta("", m, after); d != "" {
		c.Fail("converting changed the block: %s", d)
	}
	c.State(want)
}

func init() {
	reg(&eng.Check{
		ID: "C26", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "values", Bound: "every value of the menu (all kinds, not finite, not UTF-8, up to 20000 items), alone, nested in a block and in an array of blocks, under every key of a menu", Body: func(c *eng.Ctx) {
				vs := metaVals(false, false, true)
				v := vs[c.Free(len(vs))]
				keys := []string{"k", "", "x", "a.b$c\"\\\n", "$ref", "_id", "é\U0001F600", rep(200), "a\x00b"}
				m := Meta{{keys[c.Free(len(keys))], v}}
				switch c.Free(5) {
				case 1:
					m = append(m, KV{"other", Val{Kind: VBool}})
				case 2:
					m = Meta{{"in", Val{Kind: VBlock, M: m}}, {"b", Val{Kind: VInt, I: 3}}}
				case 3:
					m = Meta{{"arr", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock}, {Kind: VBlock, M: m}, {Kind: VBlock, M: append(Meta{{"q", Val{Kind: VInt, I: 1}}}, m...)}}}}}
				case 4:
					for i := 0; i < 40; i++ {
						m = Meta{{fmt.Sprint("d", i), Val{Kind: VBlock, M: m}}}
					}
				}
				c.Describe(func() string { return bsonDoc(m) })
				viaBSON(c, m)
			}},
			depth(2, sizesPhase(5000, 70000, ", every block of the recording", func(c *eng.Ctx, m *Rec) {
				for _, b := range blocksOf(m) {
					viaBSON(c, b)
				}
			})),
			{Name: "unset", Bound: "blocks that were never filled, alone, nested and in arrays", Body: func(c *eng.Ctx) {
				m, b := unsetBlock(c)
				viaBSONReal(c, m, b)
			}},
			{Name: "pairs", Bound: "every pair of values of the menu together in one block", Body: func(c *eng.Ctx) {
				vs := metaVals(false, false, false)
				a, b := vs[c.Free(len(vs))], vs[c.Free(len(vs))]
				m := Meta{{"a", a}, {"b", b}}
				c.Describe(func() string { return bsonDoc(m) })
				viaBSON(c, m)
			}},
			{Name: "numbers", Bound: "int32 and float32 values: every power of two and of ten, 2 either side; all vectors of 3 components over 15 numbers; every byte", Body: func(c *eng.Ctx) {
				switch c.Free(4) {
				case 0:
					i := int32(1<<uint(c.Free(32))) + int32(c.Free(5)) - 2
					if c.Free(2) == 1 {
						i = -i
					}
					viaBSON(c, Meta{{"i", Val{Kind: VInt, I: i}}, {"a", Val{Kind: VArr, Elem: VInt, Arr: []Val{{Kind: VInt, I: i}, {Kind: VInt, I: -i}}}}})
				case 1:
					f := float32(math.Pow(2, float64(c.Free(277)-149)))
					for d := c.Free(5); d > 0; d-- {
						f = math.Nextafter32(f, float32(d&1)*math.MaxFloat32)
					}
					if c.Free(2) == 1 {
						f = -f
					}
					viaBSON(c, Meta{{"f", Val{Kind: VF32, F: f}}, {"a", Val{Kind: VArr, Elem: VF32, Arr: []Val{{Kind: VF32, F: f}, {Kind: VF32, F: 0.5}}}}})
				case 2:
					ns := append([]float64{0, 1, -1, 0.1, 1e6, 1e-9, 1e21, 123456789.123456789, 16777217}, specials...)
					var v [3]float64
					for i := range v {
						v[i] = ns[c.Free(len(ns))]
					}
					viaBSON(c, Meta{{"v3", Val{Kind: VVec3, V: v}}, {"v2", Val{Kind: VVec2, V: [3]float64{v[0], v[2]}}},
						{"a", Val{Kind: VArr, Elem: VVec3, Arr: []Val{{Kind: VVec3, V: v}, {Kind: VVec3, V: [3]float64{v[1], v[2], v[0]}}}}}})
				case 3:
					b := byte(c.Free(256))
					viaBSON(c, Meta{{"b", Val{Kind: VByte, By: b}}, {"bs", Val{Kind: VBytes, Raw: []byte{b, 0, b}}}, {"bo", Val{Kind: VBoolArr, Raw: []byte{b & 1, b >> 1 & 1, b >> 2 & 1, b >> 3 & 1}}}})
				}
			}},
			{Name: "times", Bound: "times at and around every power of two of microseconds from the epoch, both ways", Body: func(c *eng.Ctx) {
				t := int64(1) << uint(c.Free(63))
				t += []int64{0, 1, -1, 999, 1000, 1001, 500, -1000}[c.Free(8)]
				if c.Free(2) == 1 {
					t = -t
				}
				v := Val{Kind: VTime, T: t}
				viaBSON(c, Meta{{"t", v}, {"a", Val{Kind: VArr, Elem: VTime, Arr: []Val{{Kind: VTime, T: 1}, v}}}})
			}},
			{Name: "strings", Bound: "all strings of at most 4 (thorough 5) characters over 12 special ones, as value, key and array item", Body: func(c *eng.Ctx) {
				al := []string{"0", "x", "a", "\"", "\\", "\n", "\x00", ".", "$", "é", "\U0001F600", "\xff"}
				n := 4
				if c.Tier == "thorough" {
					n = 5
				}
				s := ""
				for n = c.Free(n + 1); n > 0; n-- {
					s += al[c.Free(len(al))]
				}
				v := Val{Kind: VStr, S: s}
				c.Describe(func() string { return fmt.Sprintf("%q", s) })
				viaBSON(c, Meta{{"v", v}, {"a", Val{Kind: VArr, Elem: VStr, Arr: []Val{{Kind: VStr, S: "t"}, v, v}}}})
				viaBSON(c, Meta{{"k" + s, Val{Kind: VBool}}})
			}},
			{Name: "shapes", Bound: "all blocks of at most 2 keys with values nested to depth 3 (blocks, arrays of blocks, leaves of every kind)", Body: func(c *eng.Ctx) {
				var blk func(d int) Meta
				blk = func(d int) Meta {
					n := c.Free(3)
					if d == 0 {
						n = c.Free(2)
					}
					var m Meta
					for i := 0; i < n; i++ {
						k := 1
						if d > 0 {
							k = 4
						}
						var v Val
						switch c.Free(k) {
						case 0:
							v = []Val{{Kind: VInt, I: 1}, arr(VStr, 2), raw(VBoolArr, 2), {Kind: VTime, T: 5000}}[d+i&1]
						case 1:
							v = Val{Kind: VBlock, M: blk(d - 1)}
						case 2:
							v = Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: blk(d - 1)}}}
						case 3:
							v = Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: Meta{{"f", Val{Kind: VF32, F: 1.5}}}}, {Kind: VBlock, M: blk(0)}}}
						}
						m = append(m, KV{[]string{"a", "b"}[i], v})
					}
					return m
				}
				m := blk(2)
				c.Describe(func() string { return bsonDoc(m) })
				viaBSON(c, m)
			}},
			{Name: "loaded", Bound: "the metadata of every file of both families, loaded", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				c.Describe(func() string { return f.Name })
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				for _, n := range nodes(Complete(c, rec)) {
					viaBSON(c, n.Meta)
				}
			}},
		},
	})
}
