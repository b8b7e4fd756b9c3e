package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"strings"

	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// metaPlaces is where a block can be attached.
const metaPlaces = 7

// withMeta builds a recording in which block m is attached at place p and
// block o at every other place.
func withMeta(p int, m, o Meta) *Rec {
	at := func(k int) Meta {
		if k == p {
			return m
		}
		return o
	}
	return &Rec{ID: "r", Name: "root", Meta: at(0),
		Colls: []Coll{
			{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "a", Meta: at(2)}, {T: 2, Name: "b", Meta: o}}},
			{Kind: Pos, Name: "p", Caps: []Cap{{T: 1, V: [3]float64{1, 2, 3}}}},
		},
		Refs: []Ref{{Name: "rf", URI: "u", Size: 4, Meta: at(4)}, {Name: "rf2", Meta: o}},
		Bins: []Bin{{Name: "b", Data: []byte("data"), Meta: at(3)}, {Name: "b2", Data: []byte("more"), Meta: o}},
		Recs: []*Rec{{ID: "c", Name: "child", Meta: at(1), Recs: []*Rec{{ID: "g", Name: "grand", Meta: o,
			Colls: []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "b", Meta: at(5)}}}},
			Bins:  []Bin{{Name: "b", Data: []byte("x"), Meta: at(6)}}}}}},
	}
}

func roundTrip(c *eng.Ctx, m *Rec, t Tech) []byte {
	c.Describe(func() string { return techStr(t) + " " + m.String() })
	file, wn := MustWrite(c, m.Real(), t)
	got, rn := MustRead(c, file)
	Same(c, "read back recording differs", m, got, nil)
	if wn != rn {
		c.Fail("write reported %d bytes, read %d", wn, rn)
	}
	c.State(m.Hash(), file)
	return file
}

// seemsSame checks that a value that was read looks like the one written in
// every way it can be looked at.
func seemsSame(c *eng.Ctx, want, got metadata.Property) {
	if want.Code() != got.Code() {
		c.Fail("code %d came back as %d: %v", want.Code(), got.Code(), want)
	}
	a, aerr := json.Marshal(want)
	b, berr := json.Marshal(got)
	if !bytes.Equal(a, b) || (aerr == nil) != (berr == nil) {
		c.Fail("JSON %q (%v) came back as %q (%v)", a, aerr, b, berr)
	}
	if x, y := want.String(), got.String(); x != y && !strings.Contains(string(a), "{") {
		c.Fail("text %q came back as %q", x, y)
	}
}

// keysMenu are unusual keys.
var keysMenu = []string{"k", "", " ", rep(127), rep(128), rep(300), longStr, "ключ€\U0001F600", "a\"b\\c\n", "\x00", "\xff\xfe", "0", "value", "x"}

// sameText lists pairs of different values that share their text, bytes or
// JSON.
func sameText(vals []Val) (out [][2]Val) {
	by := map[string]map[string]Val{}
	add := func(key string, v Val) {
		if by[key] == nil {
			by[key] = map[string]Val{}
		}
		by[key][fmt.Sprintf("%+v", v)] = v
	}
	vals = append(append([]Val{}, vals...), strVal("1"), intVal(1), Val{Kind: VByte, By: 1}, Val{Kind: VF32, F: 1}, strVal("true"), Val{Kind: VBool, B: true}, strVal("[1]"), Val{Kind: VArr, Elem: VInt, Arr: []Val{intVal(1)}}, Val{Kind: VArr, Elem: VF32, Arr: []Val{{Kind: VF32, F: 1}}}, Val{Kind: VBytes, Raw: []byte{1}}, Val{Kind: VBoolArr, Raw: []byte{1}})
	for _, v := range vals {
		p := v.Real()
		t := p.String()
		if len(t) > 1000 {
			continue
		}
		add("t"+t, v)
		add("t"+t, strVal(t))
		add("b"+string(p.Data()), v)
		add("b"+string(p.Data()), strVal(string(p.Data())))
		if j, err := json.Marshal(p); err == nil {
			add("j"+string(j), v)
			add("j"+string(j), strVal(string(j)))
		}
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	seen := map[string]bool{}
	for _, k := range keys {
		var in []string
		for x := range by[k] {
			in = append(in, x)
		}
		sort.Strings(in)
		for i, x := range in {
			for _, y := range in[:i] {
				if id := x + "|" + y; !seen[id] {
					seen[id] = true
					out = append(out, [2]Val{by[k][x], by[k][y]})
				}
			}
		}
	}
	return
}

func init() {
	vals := metaVals(false, false, true)
	small := metaVals(false, false, false)
	kv := func(k string, v Val) KV { return KV{k, v} }
	reg(&eng.Check{
		ID: "C04", Level: "model_checking",
		Assumptions: []string{"a menu of about 110 values spans every value kind, its extremes and its width boundaries; blocks nest at most 4 deep in combination with them"},
		Phases: []eng.Phase{
			{Name: "places", Bound: "every value of the menu, at each of 7 places, under each of 14 keys, in a block with or without neighbours, compressed or not", Body: func(c *eng.Ctx) {
				v := vals[c.Free(len(vals))]
				p := c.Free(metaPlaces)
				var k string
				if c.Tier == "thorough" {
					k = keysMenu[c.Free(len(keysMenu))]
				} else {
					k = keysMenu[c.Dev(len(keysMenu))]
				}
				var m Meta
				switch c.Free(4) {
				case 0:
					m = Meta{kv(k, v)}
				case 1:
					m = Meta{kv(k+"a", Val{Kind: VInt, I: 5}), kv(k, v), kv(k+"b", Val{Kind: VStr, S: "after"})}
				case 2:
					m = Meta{kv("o", Val{Kind: VBlock, M: Meta{kv(k, v), kv(k+"z", Val{Kind: VBool, B: true})}})}
				case 3:
					m = Meta{kv("o", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: Meta{kv(k, v)}}, {Kind: VBlock}, {Kind: VBlock, M: Meta{kv("q", Val{Kind: VBlock, M: Meta{kv(k, v)}})}}}})}
				}
				t := Full
				t.Compress = c.Free(2) == 1
				roundTrip(c, withMeta(p, m, nil), t)
			}, Quick: 1, Thor: 0},
			{Name: "pairs", Bound: "every ordered pair of values (small menu), one block holding both, or the same key holding them at two places", Body: func(c *eng.Ctx) {
				i := c.Free(len(small))
				j := c.Free(len(small))
				p := c.Free(metaPlaces)
				var r *Rec
				if c.Free(2) == 0 {
					r = withMeta(p, Meta{kv("a", small[i]), kv("b", small[j])}, nil)
				} else {
					r = withMeta(p, Meta{kv("a", small[i]), kv("b", small[j])}, Meta{kv("b", small[i]), kv("a", small[j]), kv("c", small[i])})
				}
				roundTrip(c, r, Full)
			}},
			sizesPhase(5000, 70000, "", func(c *eng.Ctx, m *Rec) { roundTrip(c, m, Full) }),
			{Name: "nesting", Bound: "all chains of at most 4 (thorough 6) nested blocks, arrays of blocks and arrays with neighbours, at every depth 1 to 12, 30, 100, 1000, 9000, ending in 4 values, at each place (the two deepest: single patterns in one place)", Body: func(c *eng.Ctx) {
				ds := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 30, 100, 1000, 9000}
				depth := ds[c.Free(len(ds))]
				n := 1 + c.Free(2)
				if c.Tier == "thorough" {
					n = 1 + c.Free(5)
				}
				pat := make([]int, n)
				for i := range pat {
					pat[i] = c.Free(4)
				}
				v := []Val{strVal("leaf"), arr(VInt, 3), {Kind: VBlock}, arr(VBlock, 2)}[c.Free(4)]
				p := 0
				if depth < 1000 {
					p = c.Free(metaPlaces)
				} else if n > 1 {
					c.Skip()
				}
				for i := 0; i < depth; i++ {
					b := Val{Kind: VBlock, M: Meta{{"k", v}}}
					switch pat[i%n] {
					case 0:
						v = b
					case 1:
						v = Val{Kind: VBlock, M: Meta{{"a", intVal(i)}, {"k", v}, {"z", strVal("z")}}}
					case 2:
						v = Val{Kind: VArr, Elem: VBlock, Arr: []Val{b}}
					case 3:
						v = Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock}, b, {Kind: VBlock, M: Meta{{"after", intVal(i)}}}}}
					}
				}
				c.Describe(func() string { return fmt.Sprintf("depth %d pattern %v at place %d", depth, pat, p) })
				m := withMeta(p, Meta{{"o", v}, {"p", intVal(1)}}, Meta{{"p", intVal(2)}})
				file, _ := MustWrite(c, m.Real(), Full)
				got, _ := MustRead(c, file)
				Same(c, "read back recording differs", m, got, nil)
				c.State(file)
			}},
			{Name: "sizes", Bound: "blocks of 0..140 and 255..260 keys at each place; arrays of every element kind and raw arrays of 0..135, 255..257, 16383..16385 elements", Body: func(c *eng.Ctx) {
				if c.Free(2) == 0 {
					n := c.Free(147)
					if n > 140 {
						n += 255 - 141
					}
					p := c.Free(metaPlaces)
					roundTrip(c, withMeta(p, manyKeys(n, "k"), manyKeys(3, "k")), Full)
					return
				}
				n := c.Free(142)
				if n > 138 {
					n += 16383 - 139
				} else if n > 135 {
					n += 255 - 136
				}
				var v Val
				switch k := c.Free(9); k {
				case 7:
					v = raw(VBoolArr, n)
				case 8:
					v = raw(VBytes, n)
				default:
					v = arr([]VK{VStr, VInt, VF32, VVec2, VVec3, VBlock, VTime}[k], n)
				}
				roundTrip(c, withMeta(c.Free(2)*2, Meta{kv("a", v), kv("b", Val{Kind: VStr, S: "x"})}, nil), Full)
			}},
			{Name: "int times", Bound: "integers and times and vectors at every power of two +-1, strings of every length 0..300", Body: func(c *eng.Ctx) {
				var v Val
				switch c.Free(4) {
				case 0:
					x := int32(int64(1)<<uint(c.Free(32)) + int64(c.FreeRange(-1, 1)))
					if c.Free(2) == 1 {
						x = -x
					}
					v = Val{Kind: VInt, I: x}
				case 1:
					x := int64(1)<<uint(c.Free(63)) + int64(c.FreeRange(-1, 1))
					if c.Free(2) == 1 {
						x = -x
					}
					v = Val{Kind: VTime, T: x}
				case 2:
					b := make([]byte, c.Free(301))
					for i := range b {
						b[i] = byte(i * 7)
					}
					v = Val{Kind: VStr, S: string(b)}
				case 3:
					v = Val{Kind: VByte, By: byte(c.Free(256))}
				}
				roundTrip(c, withMeta(c.Free(3), Meta{kv("a", v), kv("b", v)}, nil), Full)
			}},
			{Name: "same text", Bound: "every value and the text it prints as, or each of the other values of the same text, bytes or JSON, next to each other, in blocks, in arrays and at two places", Body: func(c *eng.Ctx) {
				all := sameText(vals)
				pr := all[c.Free(len(all))]
				a, b := pr[0], pr[1]
				if c.Free(2) == 1 {
					a, b = b, a
				}
				in := func(v Val) Val { return Val{Kind: VBlock, M: Meta{kv("k", v)}} }
				var m, o Meta
				switch c.Free(4) {
				case 0:
					m, o = Meta{kv("a", a), kv("b", b)}, Meta{kv("a", b)}
				case 1:
					m, o = Meta{kv("a", in(a)), kv("b", in(b))}, Meta{kv("a", in(b))}
				case 2:
					m, o = Meta{kv("a", Val{Kind: VArr, Elem: VBlock, Arr: []Val{in(a), in(b), in(a)}})}, Meta{kv("a", Val{Kind: VArr, Elem: VBlock, Arr: []Val{in(b), in(a)}})}
				case 3:
					m, o = Meta{kv("x", in(in(a))), kv("y", in(in(b)))}, Meta{kv("x", in(in(b)))}
				}
				roundTrip(c, withMeta(c.Free(3), m, o), Full)
			}},
			{Name: "nested keys", Bound: "blocks inside one another (or in arrays) 1 to 5 deep, all sets of at most 3 of 5 keys (the empty one included) on the odd levels times all on the even ones, stored in ascending and in descending order", Body: func(c *eng.Ctx) {
				names := []string{"", "a", "b", "ab", "\x00"}
				var sets [][]string
				for mask := 1; mask < 32; mask++ {
					var s []string
					for i, k := range names {
						if mask>>uint(i)&1 == 1 {
							s = append(s, k)
						}
					}
					if len(s) <= 3 {
						sets = append(sets, s)
					}
				}
				two := [2][]string{sets[c.Free(len(sets))], sets[c.Free(len(sets))]}
				depth, in := 1+c.Free(5), c.Free(3)
				c.MapPolicy(c.Free(2)) // keys first to last and last to first
				inArr := c.Free(2) == 1
				v := strVal("end")
				for d := depth; d > 0; d-- {
					b := Val{Kind: VBlock}
					keys := two[d%2]
					for i, k := range keys {
						x := intVal(100*d + i)
						if i == in%len(keys) {
							x = v
						}
						b.M = append(b.M, KV{k, x})
					}
					v = b
					if inArr {
						v = Val{Kind: VArr, Elem: VBlock, Arr: []Val{b, {Kind: VBlock, M: Meta{{keys[0], intVal(-d)}}}}}
					}
				}
				roundTrip(c, withMeta(c.Free(2)*3, Meta{kv("o", v)}, nil), Full)
			}},
			{Name: "consumption", Bound: "every ordered pair of values written one after the other with WriteProprty and read back with ReadProperty, then a sentinel byte", Body: func(c *eng.Ctx) {
				vs := []Val{vals[c.Free(len(vals))], vals[c.Free(len(vals))]}
				c.Describe(func() string { return fmt.Sprint(vs) })
				var b bytes.Buffer
				for _, v := range vs {
					before := b.Len()
					n := 0
					var err error
					c.NoPanic("WriteProprty", func() { n, err = metadata.WriteProprty(&b, v.Real()) })
					if err != nil {
						c.Fail("WriteProprty: %v", err)
					}
					if n != b.Len()-before {
						c.Fail("WriteProprty reported %d bytes and wrote %d for %v", n, b.Len()-before, v)
					}
				}
				b.WriteByte(0xA5)
				all := b.Bytes()
				for i, v := range vs {
					var p metadata.Property
					var err error
					c.NoPanic("ReadProperty", func() { p, err = metadata.ReadProperty(&b) })
					if err != nil {
						c.Fail("ReadProperty of value %d %v: %v", i, v, err)
					}
					g, err := FromProp(p)
					if err != nil {
						c.Fail("value %d: %v", i, err)
					}
					if d := DiffVal("value", v, g); d != "" {
						c.Fail("value %d: %s", i, d)
					}
					seemsSame(c, v.Real(), p)
				}
				if b.Len() != 1 || b.Bytes()[0] != 0xA5 {
					c.Fail("reading %v left %d bytes instead of the sentinel", vs, b.Len())
				}
				c.State(all)
			}},
		},
	})
}
