package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// decimals is the text of f with n decimals, by exact arithmetic.
func decimals(f float64, n int) string {
	switch {
	case f != f:
		return "NaN"
	case math.IsInf(f, 1):
		return "+Inf"
	case math.IsInf(f, -1):
		return "-Inf"
	}
	r := new(big.Rat)
	r.SetFloat64(math.Abs(f))
	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
	r.Mul(r, new(big.Rat).SetInt(scale))
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	switch m.Lsh(m, 1).Cmp(r.Denom()) {
	case 1:
		q.Add(q, big.NewInt(1))
	case 0: // a tie goes to the even neighbour
		if q.Bit(0) == 1 {
			q.Add(q, big.NewInt(1))
		}
	}
	s := q.String()
	for len(s) <= n {
		s = "0" + s
	}
	s = s[:len(s)-n] + "." + s[len(s)-n:]
	if math.Signbit(f) {
		s = "-" + s
	}
	return s
}

func vecText(v [3]float64, n, digits int) string {
	var o []string
	for _, f := range v[:n] {
		o = append(o, decimals(f, digits))
	}
	return strings.Join(o, ", ")
}

// shownText is the text a value should have. With stored, arrays of bytes and
// booleans are counted with the length they are stored with.
func shownText(v Val, stored bool) string {
	switch v.Kind {
	case VStr:
		return v.S
	case VInt:
		return fmt.Sprint(v.I)
	case VF32:
		return decimals(float64(v.F), 6)
	case VBool:
		if v.B {
			return "true"
		}
		return "false"
	case VByte:
		return fmt.Sprint(int(v.By))
	case VVec2:
		return vecText(v.V, 2, 6)
	case VVec3:
		return vecText(v.V, 3, 6)
	case VTime:
		return fmt.Sprint(v.T) + " μs"
	case VBlock:
		return blockText(v.M, stored)
	case VArr:
		return fmt.Sprintf("Type %d Array of %d elements", Val{Kind: v.Elem}.Code(), len(v.Arr))
	}
	n := len(v.Raw)
	if stored {
		for l := n; ; l >>= 7 {
			n++
			if l < 128 {
				break
			}
		}
	}
	kind := 5
	if v.Kind == VBoolArr {
		kind = 3
	}
	return fmt.Sprintf("Type %d Array of %d elements", kind, n)
}

func blockText(m Meta, stored bool) string {
	s := append(Meta{}, m...)
	sort.Slice(s, func(i, j int) bool { return s[i].K < s[j].K })
	var o strings.Builder
	o.WriteString("{\n")
	for _, kv := range s {
		o.WriteString("\t\"" + kv.K + "\": ")
		o.WriteString(shownText(kv.V, stored))
		o.WriteString(";\n")
	}
	o.WriteString("}")
	return o.String()
}

// shown fails when the text of a property is not that of v. Where the known
// finding about the count of bytes and booleans is not looked for (exact),
// either count will do.
func shown(c *eng.Ctx, how string, p metadata.Property, v Val, exact bool) {
	data := func() string {
		if v.Kind == VBlock || v.Kind == VArr { // unordered, or made of others
			return ""
		}
		return fmt.Sprint(p.Code()) + string(p.Data())
	}
	was := data()
	var got, again string
	c.NoPanic("making the text of a value", func() { got = p.String(); again = fmt.Sprint(p) })
	if again != got {
		c.Fail("%s: the text of a value is %q and then %q", how, clipS(got), clipS(again))
	}
	if data() != was {
		c.Fail("%s: making the text of %s changes it", how, v)
	}
	c.Step(1)
	c.State(got)
	if want := shownText(v, false); got != want {
		alt := shownText(v, true)
		if got != alt {
			c.Fail("%s: the text of %s is %q, not %q", how, clipS(v.String()), clipS(got), clipS(want))
		}
		if exact {
			c.FailKey("known: array of bytes or booleans counted with its stored length", "%s: the text of %s is %q, not %q", how, clipS(v.String()), got, want)
		}
	}
}

func capText(kind string, p Cap) string {
	t := "[" + decimals(p.T, 2) + "] "
	switch kind {
	case Event:
		return t + p.Name
	case Enum:
		return t + "Enum - " + fmt.Sprint(p.I)
	case Float:
		return t + "- " + decimals(p.V[0], 2)
	case Euler:
		return t + "Rotation - " + vecText(p.V, 3, 2)
	}
	return t + "- " + vecText(p.V, 3, 2)
}

// texts fails when the text of any part of a recording is not that of m.
func texts(c *eng.Ctx, how string, rec format.Recording, m *Rec) {
	block := func(b metadata.Block, w Meta) {
		shown(c, how, metadata.NewMetadataProperty(b), Val{Kind: VBlock, M: w}, false)
		for _, kv := range w {
			shown(c, how, b.Mapping()[kv.K], kv.V, false)
		}
	}
	block(rec.Metadata(), m.Meta)
	for i, x := range rec.BinaryReferences() {
		block(x.Metadata(), m.Refs[i].Meta)
	}
	for i, x := range rec.Binaries() {
		block(x.Metadata(), m.Bins[i].Meta)
	}
	for i, x := range rec.CaptureCollections() {
		for j, p := range x.Captures() {
			w := m.Colls[i].Caps[j]
			var got, at string
			c.NoPanic("making the text of a capture", func() { got, at = p.String(), fmt.Sprint(x.CaptureAt(j)) })
			want := capText(m.Colls[i].Kind, w)
			if got != want || at != want {
				c.Fail("%s: the text of capture %d of %s is %q (%q), not %q", how, j, clipS(m.Colls[i].Kind), clipS(got), clipS(at), clipS(want))
			}
			c.Step(1)
			if e, ok := p.(interface{ Metadata() metadata.Block }); ok && m.Colls[i].Kind == Event {
				shown(c, how, metadata.NewMetadataProperty(e.Metadata()), Val{Kind: VBlock, M: w.Meta}, false)
			}
		}
	}
	for i, x := range rec.Recordings() {
		texts(c, how, x, m.Recs[i])
	}
}

// textTrip looks at the texts of a recording as built, written and read back,
// and sliced.
func textTrip(c *eng.Ctx, m *Rec) {
	c.Describe(m.String)
	real := m.Real()
	texts(c, "built", real, m)
	file, _ := MustWrite(c, real, Full)
	rec, _, err := Read(c, bytes.NewReader(file))
	if err != nil {
		c.Fail("read failed: %v", err)
	}
	Same(c, "read back", m, Complete(c, rec), nil)
	texts(c, "read back", rec, m)
	texts(c, "built, after it was written", real, m)
	s := format.Slice(rec, format.BeginningOfSlice(math.Inf(-1)))
	texts(c, "sliced", s, Complete(c, s))
}

func init() {
	nums := func() []float64 {
		ns := append([]float64{0, 0.5, 0.005, 0.015, 0.025, 0.125, 0.375, 0.9949999, 0.995, 0.9951, 0.0000005, 0.0000015, 0.9999995, 0.9999996, 1, 9.995, 99.995, 1e6, 123456789.123456789, 1e15 + 0.5, 1e21, 1e22, 1e23, 1e100, 4503599627370497.5, 1.0 / 3, 1e-7, 0.004999}, specials...)
		for _, n := range ns {
			ns = append(ns, -n)
		}
		return ns
	}()
	reg(&eng.Check{
		ID: "C28", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "values", Bound: "every value of the menu (all kinds, not finite, not UTF-8, up to 20000 items), alone, nested in a block among others and in blocks in that, under every key of a menu", Body: func(c *eng.Ctx) {
				vs := metaVals(false, false, true)
				v := vs[c.Free(len(vs))]
				keys := []string{"k", "", "a", "z", "\"", "é\U0001F600", rep(200), "%d%s", "\x00"}
				k := keys[c.Free(len(keys))]
				m := Meta{{k, v}}
				if c.Free(2) == 1 {
					m = Meta{{"m", Val{Kind: VInt, I: 1}}, {k, v}, {"B", Val{Kind: VBlock, M: Meta{{"in", v}, {"out", v}}}}}
				}
				for d := c.Free(4); d > 0; d-- {
					m = Meta{{"d", Val{Kind: VBlock, M: m}}, {"c", v}}
				}
				c.Describe(func() string { return m.String() })
				shown(c, "alone", v.Real(), v, false)
				w := Val{Kind: VBlock, M: m}
				shown(c, "in a block", w.Real(), w, false)
			}},
			{Name: "bytes and booleans", Bound: "arrays of 0 to 300 bytes and booleans, alone and nested", Body: func(c *eng.Ctx) {
				v := raw([]VK{VBytes, VBoolArr}[c.Free(2)], c.Free(301))
				if c.Free(2) == 1 {
					v = Val{Kind: VBlock, M: Meta{{"k", v}}}
				}
				shown(c, "alone", v.Real(), v, true)
			}},
			{Name: "numbers", Bound: "all int32 and float32 around powers of two, every byte, every time around powers of two of microseconds, every vector of 41 kinds of numbers in each component", Body: func(c *eng.Ctx) {
				var v Val
				switch c.Free(5) {
				case 0:
					i := int32(1<<uint(c.Free(32))) + int32(c.Free(5)) - 2
					if c.Free(2) == 1 {
						i = -i
					}
					v = Val{Kind: VInt, I: i}
				case 1:
					f := float32(math.Pow(2, float64(c.Free(277)-149)))
					for d := c.Free(5); d > 0; d-- {
						f = math.Nextafter32(f, float32(d&1)*math.MaxFloat32)
					}
					if c.Free(2) == 1 {
						f = -f
					}
					v = Val{Kind: VF32, F: f}
				case 2:
					v = Val{Kind: VByte, By: byte(c.Free(256))}
				case 3:
					t := int64(1)<<uint(c.Free(63)) + int64(c.Free(3)) - 1
					if c.Free(2) == 1 {
						t = -t
					}
					v = Val{Kind: VTime, T: t}
				case 4:
					v = Val{Kind: VVec2}
					n := 2
					if c.Free(2) == 1 {
						v.Kind, n = VVec3, 3
					}
					v.V[c.Free(n)] = nums[c.Free(len(nums))]
					v.V[c.Free(n)] = nums[c.Free(len(nums))]
				}
				shown(c, "alone", v.Real(), v, false)
			}},
			{Name: "captures", Bound: "a capture of every kind at every time of a menu, with every value of a menu in each component", Body: func(c *eng.Ctx) {
				p := Cap{T: nums[c.Free(len(nums))]}
				k := Order[c.Free(len(Order))]
				x := Coll{Kind: k, Name: "c"}
				switch k {
				case Event:
					p.Name = []string{"", "e", "a b", "%d %s", "é\U0001F600\n", rep(300), "\x00\xff", "]"}[c.Free(8)]
				case Enum:
					x.Members = []string{"a"}
					p.I = []int{0, 1, 2, 9, 10, 99, 127, 128, 1 << 20, math.MaxInt32, math.MaxInt64}[c.Free(11)]
				case Float:
					p.V[0] = nums[c.Free(len(nums))]
				default:
					p.V = [3]float64{1.25, -7, 100}
					p.V[c.Free(3)] = nums[c.Free(len(nums))]
				}
				x.Caps = []Cap{p, p}
				texts(c, "built", (&Rec{Colls: []Coll{x}}).Real(), &Rec{Colls: []Coll{x}})
			}},
			{Name: "orders", Bound: "blocks of 1 to 4 keys with nested blocks, every iteration order of every map while the text is made", Quick: 2, Thor: 4, Body: func(c *eng.Ctx) {
				ks := []string{"b", "a", "", "B", "é"}
				var m Meta
				for i := c.Free(5); i >= 0; i-- {
					m = append(m, KV{ks[i], Val{Kind: VInt, I: int32(i)}})
				}
				if c.Free(2) == 1 {
					m[0].V = Val{Kind: VBlock, M: Meta{{"z", Val{Kind: VBool}}, {"y", Val{Kind: VBlock, M: Meta{{"q", Val{Kind: VBool}}, {"p", Val{Kind: VByte, By: 3}}}}}}}
				}
				v := Val{Kind: VBlock, M: m}
				p := v.Real()
				orders(c, c.Free(1+eng.MapPolicies)-1, func() {
					var got string
					c.NoPanic("making the text of a block", func() { got = p.String() })
					if want := shownText(v, false); got != want {
						c.Fail("the text of a block is %q, not %q", got, want)
					}
				})
			}},
			{Name: "keys", Bound: "all sets of at most 4 keys of 9, and blocks of 100, 128, 129 and 1000 keys", Body: func(c *eng.Ctx) {
				ks := []string{"", " ", "A", "B", "a", "aa", "b", "é", "\xff"}
				var m Meta
				if big := c.Free(5); big > 0 {
					m = bigBlock([]int{0, 100, 128, 129, 1000}[big]).M
				} else {
					left := 4
					for i, k := range ks {
						if left > 0 && c.Free(2) == 1 {
							m = append(m, KV{k, Val{Kind: VByte, By: byte(i)}})
							left--
						}
					}
				}
				v := Val{Kind: VBlock, M: m}
				shown(c, "alone", v.Real(), v, false)
			}},
			{Name: "alike keys", Bound: "blocks of keys that share a beginning of 0 to 300, 1000 or 5000 bytes, or an end, and differ in one of 8 ways, in 6 iteration orders of every map", Body: func(c *eng.Ctx) {
				n := c.Free(303)
				if n > 300 {
					n = []int{1000, 5000}[n-301]
				}
				tails := [][]string{{"1", "2", "3"}, {"10", "9", "08"}, {"a", "A", "b"}, {"", "x", "xx"}, {"é", "z", "ê"}, {"\xff", "a", "\x00"}, {" ", "-", "_"}, {"x1", "x2", "y"}}
				l := tails[c.Free(len(tails))]
				end := ""
				if c.Free(2) == 1 {
					end = rep(n)
				}
				var m Meta
				for i, t := range l {
					k := rep(n) + t
					if end != "" {
						k = t + end
					}
					m = append(m, KV{k, Val{Kind: VInt, I: int32(i)}})
				}
				if c.Free(2) == 1 {
					m = Meta{{"in", Val{Kind: VBlock, M: m}}}
				}
				v := Val{Kind: VBlock, M: m}
				c.MapPolicy(c.Free(eng.MapPolicies))
				shown(c, "alone", v.Real(), v, false)
			}},
			{Name: "unset", Bound: "blocks that were never filled, alone, nested and in arrays", Body: func(c *eng.Ctx) {
				m, b := unsetBlock(c)
				shown(c, "unset", metadata.NewMetadataProperty(b), Val{Kind: VBlock, M: m}, false)
			}},
			depth(2, sizesPhase(4999, 70000, ", all texts of the recording built, read back and sliced", func(c *eng.Ctx, m *Rec) { textTrip(c, m) })),
			{Name: "recordings", Bound: "recordings with every part within 1 (thorough 2) details of a base, built, read back and sliced", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				textTrip(c, FullGen(c).Rec())
			}},
			{Name: "loaded", Bound: "every file of both families", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				c.Describe(func() string { return f.Name })
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				texts(c, "loaded", rec, Complete(c, rec))
			}},
			{Name: "imported", Bound: "the base JSON document with every value of the menu as metadata, and its parts", Body: func(c *eng.Ctx) {
				m := importBase()
				vs := metaVals(true, true, false)
				if i := c.Free(len(vs) + 1); i > 0 {
					m.Meta = Meta{{"v", vs[i-1]}}
				}
				doc := writeDoc(m, 0)
				c.Describe(func() string { return string(doc) })
				rec, err := parsing.FromJSON(doc)
				if err != nil {
					c.Skip()
				}
				texts(c, "imported", rec, Complete(c, rec))
			}},
		},
	})
}
