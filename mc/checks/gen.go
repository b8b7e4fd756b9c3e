package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// Gen makes recordings whose every detail is a choice of the explorer. Each
// choice's alternative 0 is the base recording; alternatives cost one
// deviation, so bound D explores all recordings that differ from the base in
// at most D details.
type Gen struct {
	c *eng.Ctx
	// which details vary
	Strs, Metas, Counts, Times, Vals, Shapes, Extras bool
	Big                                              bool // include very large alternatives
	Finite                                           bool // only finite numbers
	Text                                             bool // only valid UTF-8
	NoMeta                                           func(Val) bool
	Kinds                                            []string // allowed collection kinds (nil: all)
	Chrono                                           bool
	Lean                                             bool // short menus, for combinations of many details
}

// FullGen varies everything.
func FullGen(c *eng.Ctx) *Gen {
	return &Gen{c: c, Strs: true, Metas: true, Counts: true, Times: true, Vals: true, Shapes: true, Extras: true, Big: true}
}

// pick is a detail of n alternatives, the first one the default; a lean
// family has only some of them.
func (g *Gen) pick(n int, lean ...int) int {
	if !g.Lean {
		return g.c.Dev(n)
	}
	k := g.c.Dev(len(lean) + 1)
	if k == 0 {
		return 0
	}
	return lean[k-1]
}

func rep(n int) string { return strings.Repeat("x", n) }

var longStr = rep(16384)

// Strs are the interesting texts.
func textMenu(g *Gen) []string {
	m := []string{"", rep(127), rep(128), "päth/€\U0001F600", "a\"b\\c\nd\te\r\x01</é\u2028", "\x00mid\x00"}
	if !g.Text {
		m = append(m, "\xff\xfe bad utf8 \xc3")
	}
	if g.Big {
		m = append(m, rep(255), longStr)
	}
	return m
}

// Str is a text detail.
func (g *Gen) Str(def string) string {
	if !g.Strs {
		return def
	}
	m := textMenu(g)
	k := g.pick(len(m)+1, 1, 4)
	if k == 0 {
		return def
	}
	return m[k-1]
}

func f32s(n int) []Val {
	var a []Val
	for i := 0; i < n; i++ {
		a = append(a, Val{Kind: VF32, F: float32(i)*1.25 - 3})
	}
	return a
}

func arr(k VK, n int) Val {
	v := Val{Kind: VArr, Elem: k}
	for i := 0; i < n; i++ {
		var e Val
		switch k {
		case VStr:
			e = Val{Kind: VStr, S: fmt.Sprintf("s%d", i%7)}
			if i == 1 {
				e.S = ""
			}
		case VInt:
			e = Val{Kind: VInt, I: int32(i*1000003 - 7)}
		case VF32:
			e = Val{Kind: VF32, F: float32(i)*0.37 - 1}
		case VVec2:
			e = Val{Kind: VVec2, V: [3]float64{float64(i) + 0.1, -float64(i)}}
		case VVec3:
			e = Val{Kind: VVec3, V: [3]float64{float64(i) + 0.3, -float64(i), 1e9 + float64(i)}}
		case VTime:
			e = Val{Kind: VTime, T: 1600000000000000 + int64(i)*999983}
		case VBlock:
			e = Val{Kind: VBlock, M: Meta{{"i", Val{Kind: VInt, I: int32(i)}}, {fmt.Sprint("k", i%3), Val{Kind: VStr, S: fmt.Sprint(i)}}}}
			if i == 1 {
				e.M = nil
			}
		}
		v.Arr = append(v.Arr, e)
	}
	return v
}

func raw(kind VK, n int) Val {
	v := Val{Kind: kind, Raw: make([]byte, n)}
	for i := range v.Raw {
		if kind == VBoolArr {
			v.Raw[i] = byte(i>>1^i) & 1
		} else {
			v.Raw[i] = byte(i*31 + i>>8)
		}
	}
	return v
}

var nan32 = float32(math.NaN())
var inf32 = float32(math.Inf(1))

// metaVals lists the interesting metadata values; the first ones are simple.
func metaVals(finite, text, big bool) []Val {
	s := func(x string) Val { return Val{Kind: VStr, S: x} }
	i := func(x int32) Val { return Val{Kind: VInt, I: x} }
	f := func(x float32) Val { return Val{Kind: VF32, F: x} }
	v2 := func(x, y float64) Val { return Val{Kind: VVec2, V: [3]float64{x, y}} }
	v3 := func(x, y, z float64) Val { return Val{Kind: VVec3, V: [3]float64{x, y, z}} }
	tm := func(x int64) Val { return Val{Kind: VTime, T: x} }
	blk := func(m ...KV) Val { return Val{Kind: VBlock, M: m} }
	out := []Val{
		s(""), s("text"), s(rep(128)), s("q\"\\\n\x01é€\U0001F600<&>\u2028"), s("0x41"), s("0xZZ"), s("0x"), s("2021-01-02T03:04:05Z"), s("true"), s("12"),
		i(0), i(-1), i(math.MaxInt32), i(math.MinInt32), i(1000000), i(123456789), i(-2000000), i(300),
		f(0), f(0.5), f(-1.25), f(3), f(1e20), f(math.MaxFloat32), f(math.SmallestNonzeroFloat32), f(16777217), f(1e-7), f(0.1),
		{Kind: VBool, B: true}, {Kind: VBool},
		{Kind: VByte, By: 0}, {Kind: VByte, By: 65}, {Kind: VByte, By: 128}, {Kind: VByte, By: 255},
		v2(0, 0), v2(1.5, -2.25), v2(1e300, 5e-324), v3(0, 0, 0), v3(1, 2, 3), v3(-1e-9, 1e21, 123456789.123),
		blk(), blk(KV{"k", s("v")}), blk(KV{"a", i(1)}, KV{"b", blk(KV{"a", s("in")}, KV{"z", arr(VInt, 2)})}),
		blk(KV{"x", f(1.5)}, KV{"y", s("no")}), blk(KV{"", s("")}), blk(KV{"x", i(1)}), blk(KV{"x", f(1.5)}, KV{"y", f(2.5)}, KV{"z", f(3.5)}, KV{"w", f(4.5)}),
		tm(0), tm(1), tm(-1), tm(1609556645123456), tm(-62135596800000000 + 1), tm(253402300799999999),
		arr(VStr, 0), arr(VStr, 1), arr(VStr, 3), arr(VInt, 1), arr(VInt, 3), arr(VF32, 2), arr(VVec2, 2), arr(VVec3, 2), arr(VTime, 2), arr(VBlock, 1), arr(VBlock, 3),
		arr(VInt, 0), arr(VBlock, 0), arr(VVec3, 0), arr(VTime, 1), arr(VF32, 1), arr(VVec2, 1), arr(VVec3, 1),
		{Kind: VArr, Elem: VF32, Arr: []Val{f(1), f(2.5), f(3)}}, {Kind: VArr, Elem: VF32, Arr: []Val{f(1.5), f(2)}},
		{Kind: VArr, Elem: VStr, Arr: []Val{s("a"), s("0x41"), s("2021-01-02T03:04:05Z"), s("\"")}},
		{Kind: VArr, Elem: VStr, Arr: []Val{s("0x41"), s("0x42")}},
		raw(VBoolArr, 0), raw(VBoolArr, 1), raw(VBoolArr, 2), raw(VBoolArr, 9), raw(VBytes, 0), raw(VBytes, 1), raw(VBytes, 2), raw(VBytes, 128),
		blk(KV{"deep", blk(KV{"deep", blk(KV{"deep", arr(VBlock, 2)})})}),
		{Kind: VArr, Elem: VBlock, Arr: []Val{blk(KV{"v", v3(1, 2, 3)}, KV{"t", tm(5)}), blk(KV{"b", raw(VBoolArr, 3)}, KV{"arr", arr(VBlock, 2)})}},
	}
	if !finite {
		out = append(out, f(nan32), f(inf32), f(-inf32), f(float32(math.Copysign(0, -1))), v2(math.NaN(), math.Inf(1)), v3(math.Inf(-1), math.Copysign(0, -1), math.NaN()),
			tm(math.MaxInt64), tm(math.MinInt64))
	} else {
		out = append(out, f(float32(math.Copysign(0, -1))))
	}
	if !text {
		out = append(out, s("\xff\xfe\x80"), s("\x00"))
	}
	if big {
		out = append(out, s(longStr), arr(VStr, 128), arr(VInt, 300), arr(VF32, 127), arr(VVec2, 128), arr(VVec3, 200), arr(VTime, 129), arr(VBlock, 130),
			raw(VBoolArr, 128), raw(VBoolArr, 300), raw(VBytes, 127), raw(VBytes, 256), raw(VBytes, 20000), bigBlock(130))
	}
	return out
}

func bigBlock(n int) Val {
	v := Val{Kind: VBlock}
	for i := 0; i < n; i++ {
		v.M = append(v.M, KV{fmt.Sprintf("key%03d", i), Val{Kind: VInt, I: int32(i)}})
	}
	return v
}

func manyKeys(n int, tag string) Meta {
	var m Meta
	for i := 0; i < n; i++ {
		m = append(m, KV{fmt.Sprintf("%s%03d", tag, i), Val{Kind: VStr, S: fmt.Sprintf("val%d", i)}})
	}
	return m
}

// Meta is a metadata detail: the default block, or one alternative.
func (g *Gen) Meta(def Meta) Meta {
	if !g.Metas {
		return def
	}
	if g.Lean {
		switch g.c.Dev(4) {
		case 1:
			return nil
		case 2:
			return append(Meta{{"v", arr(VBlock, 3)}, {"", Val{Kind: VStr}}}, def...)
		case 3:
			return Meta{{"shared", Val{Kind: VVec3, V: [3]float64{1, 2, 3}}}, {"n", Val{Kind: VBool, B: true}}}
		}
		return def
	}
	vs := metaVals(g.Finite, g.Text, g.Big)
	if g.NoMeta != nil {
		k := 0
		for _, v := range vs {
			if !g.NoMeta(v) {
				vs[k] = v
				k++
			}
		}
		vs = vs[:k]
	}
	extra := []Meta{
		nil,
		{{"", Val{Kind: VStr, S: "empty key"}}, {"shared", Val{Kind: VBool, B: true}}},
		{{rep(128), Val{Kind: VInt, I: 1}}, {"ключ€", Val{Kind: VInt, I: 2}}},
		{{"shared", Val{Kind: VVec3, V: [3]float64{1, 2, 3}}}, {"n", Val{Kind: VStr, S: "other kind"}}, {"q\"\\\n", Val{Kind: VStr, S: "k"}}},
		manyKeys(3, "m"),
	}
	if g.Big {
		extra = append(extra, manyKeys(130, "k"), manyKeys(300, "k"))
	}
	k := g.c.Dev(1 + len(extra) + len(vs))
	switch {
	case k == 0:
		return def
	case k <= len(extra):
		return extra[k-1]
	}
	return append(Meta{{"v", vs[k-1-len(extra)]}}, def...)
}

// Val number menu.
func (g *Gen) num(i int) float64 { return float64(i)*1.5 - 2.25 }

var specials = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.MaxFloat64, 5e-324}

// Coll is a collection detail.
func (g *Gen) Coll(kind, name string, n int) Coll {
	c := Coll{Kind: kind, Name: g.Str(name)}
	if g.Counts {
		m := []int{0, 1, 3, 127, 128, 256}
		if g.Big {
			m = append(m, 129, 300)
		}
		if k := g.pick(len(m)+1, 1, 2, 5); k > 0 {
			n = m[k-1]
		}
	}
	tp := 0
	if g.Times {
		switch {
		case g.Chrono:
			tp = g.pick(3, 1)
		case g.Finite:
			tp = g.pick(4, 1, 3)
		default:
			tp = g.pick(6, 1, 4)
		}
	}
	vp := 0
	if g.Vals && n > 0 {
		if g.Finite {
			vp = g.pick(3, 1, 2)
		} else {
			vp = g.pick(5, 1, 3)
		}
	}
	if kind == Enum {
		c.Members = []string{"alpha", "beta"}
		if g.Vals {
			switch g.pick(6, 1, 4) {
			case 1:
				c.Members = []string{"beta", "alpha", "gamma"} // shared names, other indices
			case 2:
				c.Members = []string{""}
			case 3:
				c.Members = nil
				for i := 0; i < 130; i++ {
					c.Members = append(c.Members, fmt.Sprint("mem", i))
				}
			case 4:
				c.Members = []string{"dup", "dup", "é\x00\""}
			case 5:
				c.Members = []string{"only"}
			}
		}
	}
	for i := 0; i < n; i++ {
		x := Cap{}
		switch tp {
		case 0:
			x.T = float64(i)*0.5 + 0.25
		case 1:
			x.T = 7
		case 2:
			x.T = 1e9 + float64(i)*float64(i)*1e-3
		case 3:
			x.T = -float64(i) * 3.3
		case 4:
			x.T = specials[i%len(specials)]
		case 5:
			x.T = math.Float64frombits(0x3ff0000000000001 + uint64(i)*0x10000000000001)
		}
		v := func(k int) float64 {
			switch vp {
			case 1:
				return 0
			case 2:
				return math.Float64frombits(0x4009_21fb_5444_2d18 + uint64(i*3+k)*0x1234567)
			case 3:
				return specials[(i+k)%len(specials)]
			case 4:
				return float64(k)*1e-300 - 1e300*float64(i&1)
			}
			return g.num(i) + float64(k)*10.125
		}
		switch kind {
		case Pos, Euler:
			x.V = [3]float64{v(0), v(1), v(2)}
		case Float:
			x.V[0] = v(0)
		case Enum:
			if len(c.Members) > 0 {
				x.I = (i*i + vp) % len(c.Members)
			}
			if vp == 1 {
				x.I = 0
			}
			if vp == 3 {
				x.I = 300 + i
			}
		case Event:
			x.Name = []string{"start", "stop", "start"}[i%3]
			if vp == 1 {
				x.Name = ""
			}
			if vp == 2 {
				x.Name = fmt.Sprintf("name %d", i)
			}
			if i < 2 {
				x.Meta = Meta{{"shared", Val{Kind: VInt, I: int32(i)}}, {fmt.Sprint("e", i), Val{Kind: VStr, S: name}}}
				if i == 0 {
					x.Name = g.Str(x.Name)
					x.Meta = g.Meta(x.Meta)
				}
			} else if i%3 == 0 {
				x.Meta = Meta{{fmt.Sprint("e", i), Val{Kind: VBool, B: i&1 == 0}}}
			}
		}
		c.Caps = append(c.Caps, x)
	}
	return c
}

func (g *Gen) ok(kind string) bool {
	if g.Kinds == nil {
		return true
	}
	for _, k := range g.Kinds {
		if k == kind {
			return true
		}
	}
	return false
}

// Ref and Bin details.
func (g *Gen) Ref(i int) Ref {
	r := Ref{Name: g.Str(fmt.Sprint("ref", i)), URI: g.Str(fmt.Sprintf("file:///a/%d", i)), Size: 1000 + uint64(i)}
	if g.Extras {
		switch g.pick(6, 1, 2) {
		case 1:
			r.Size = 0
		case 2:
			r.Size = math.MaxUint64
		case 3:
			r.Size = 127
		case 4:
			r.Size = 128
		case 5:
			r.Size = 1 << 40
		}
	}
	r.Meta = g.Meta(Meta{{"shared", Val{Kind: VStr, S: "ref"}}, {"r", Val{Kind: VF32, F: 0.5}}})
	return r
}

func (g *Gen) Bin(i int) Bin {
	n := 20 + i
	if g.Extras {
		m := []int{0, 1, 127, 128, 255, 256, 4096}
		if g.Big {
			m = append(m, 70000)
		}
		if k := g.pick(len(m)+1, 1, 6); k > 0 {
			n = m[k-1]
		}
	}
	b := Bin{Name: g.Str(fmt.Sprint("bin", i)), Data: raw(VBytes, n).Raw}
	b.Meta = g.Meta(Meta{{"shared", Val{Kind: VBool, B: true}}, {"b", Val{Kind: VInt, I: 5}}})
	return b
}

// Rec is the whole recording detail.
func (g *Gen) Rec() *Rec {
	r := &Rec{ID: g.Str("root-id"), Name: g.Str("Root"), Meta: g.Meta(Meta{{"shared", Val{Kind: VStr, S: "root"}}, {"n", Val{Kind: VInt, I: 7}}})}
	for _, k := range []struct {
		kind, name string
		n          int
	}{{Pos, "Position", 2}, {Event, "Events", 3}, {Euler, "Rotation", 2}, {Enum, "State", 3}, {Float, "Speed", 3}} {
		if g.ok(k.kind) {
			r.Colls = append(r.Colls, g.Coll(k.kind, k.name, k.n))
		}
	}
	sub := func(id string) *Rec {
		return &Rec{ID: g.Str(id), Name: g.Str("name of " + id), Meta: g.Meta(Meta{{"shared", Val{Kind: VF32, F: 2.5}}, {id, Val{Kind: VStr, S: id}}})}
	}
	c1 := sub("child1")
	if g.ok(Event) {
		c1.Colls = append(c1.Colls, g.Coll(Event, "Events", 2))
	}
	if g.ok(Pos) {
		c1.Colls = append(c1.Colls, g.Coll(Pos, "Position", 3))
	}
	gc := &Rec{ID: "grand", Name: "Grand", Meta: Meta{{"g", Val{Kind: VInt, I: 1}}, {"shared", Val{Kind: VInt, I: 2}}}}
	if g.ok(Enum) {
		gc.Colls = append(gc.Colls, Coll{Kind: Enum, Name: "State", Members: []string{"gamma", "alpha"}, Caps: []Cap{{T: 1, I: 1}, {T: 2, I: 0}}})
	}
	if g.ok(Float) {
		gc.Colls = append(gc.Colls, Coll{Kind: Float, Name: "F", Caps: []Cap{{T: 1, V: [3]float64{2.5}}}})
	}
	c2 := &Rec{ID: "child2", Name: "Second", Meta: nil, Recs: []*Rec{gc}}
	if g.Extras {
		r.Refs = []Ref{g.Ref(0)}
		r.Bins = []Bin{g.Bin(0)}
		gc.Refs = []Ref{{Name: "gr", URI: "u", Size: 3, Meta: Meta{{"g", Val{Kind: VStr, S: "x"}}}}}
		c2.Bins = []Bin{{Name: "cb", Data: []byte{1, 2, 3}, Meta: Meta{{"onlybin", Val{Kind: VByte, By: 9}}}}}
		switch g.pick(5, 1, 2, 4) {
		case 1:
			r.Refs = nil
		case 2:
			r.Refs = append(r.Refs, Ref{Name: "ref1", URI: "u1", Size: 5}, Ref{Name: "ref0", Meta: Meta{{"onlyref2", Val{Kind: VInt, I: 3}}}})
		case 3:
			for i := 0; i < 130; i++ {
				r.Refs = append(r.Refs, Ref{Name: fmt.Sprint("n", i), URI: fmt.Sprint("u", i), Size: uint64(i)})
			}
		case 4:
			c1.Refs = append(c1.Refs, Ref{Name: "c1", URI: "c1u", Size: 1, Meta: Meta{{"shared", Val{Kind: VInt, I: 2}}}})
		}
		switch g.pick(5, 1, 2, 4) {
		case 1:
			r.Bins = nil
		case 2:
			r.Bins = append(r.Bins, Bin{Name: "b1", Data: nil}, Bin{Name: "b2", Data: []byte("zz"), Meta: Meta{{"onlybin2", Val{Kind: VInt, I: 3}}}})
		case 3:
			for i := 0; i < 130; i++ {
				r.Bins = append(r.Bins, Bin{Name: fmt.Sprint("n", i), Data: []byte{byte(i)}})
			}
		case 4:
			c1.Bins = append(c1.Bins, Bin{Name: "c1", Data: []byte("c1bytes"), Meta: Meta{{"shared", Val{Kind: VInt, I: 2}}}})
		}
	}
	r.Recs = []*Rec{c1, c2}
	if g.Shapes {
		g.shape(r)
	}
	return r
}

// shape varies the tree and the order and number of collections.
func (g *Gen) shape(r *Rec) {
	switch g.pick(9, 1, 2, 3, 6, 7) {
	case 1:
		r.Recs = nil
	case 2:
		r.Recs[0], r.Recs[1] = r.Recs[1], r.Recs[0]
	case 3: // equal twins
		r.Recs = append(r.Recs, r.Recs[0], r.Recs[0])
	case 4: // deep
		cur := r.Recs[0]
		for i := 0; i < 12; i++ {
			n := &Rec{ID: fmt.Sprint("deep", i), Name: "d", Meta: Meta{{fmt.Sprint("dk", i), Val{Kind: VInt, I: int32(i)}}}}
			if g.ok(Pos) {
				n.Colls = []Coll{{Kind: Pos, Name: fmt.Sprint("p", i), Caps: []Cap{{T: float64(i), V: [3]float64{1, 2, float64(i)}}}}}
			}
			cur.Recs = append(cur.Recs, n)
			cur = n
		}
	case 5: // wide
		for i := 0; i < 130; i++ {
			n := &Rec{ID: fmt.Sprint("w", i), Name: "w", Meta: Meta{{fmt.Sprint("wk", i), Val{Kind: VInt, I: int32(i)}}}}
			if g.ok(Enum) && i%3 == 0 {
				n.Colls = []Coll{{Kind: Enum, Name: fmt.Sprint("e", i), Members: []string{fmt.Sprint("m", i), "alpha"}, Caps: []Cap{{T: 1, I: i % 2}}}}
			}
			if g.ok(Event) && i%3 == 1 {
				n.Colls = []Coll{{Kind: Event, Name: "ev", Caps: []Cap{{T: 1, Name: fmt.Sprint("en", i), Meta: Meta{{fmt.Sprint("ek", i), Val{Kind: VInt, I: int32(i)}}}}}}}
			}
			r.Recs = append(r.Recs, n)
		}
	case 6: // only the root has nothing
		r.Colls = nil
	case 7: // bushy
		r.Recs[0].Recs = []*Rec{r.Recs[1], {ID: "x", Name: "y"}}
	case 8: // an empty recording
		*r = Rec{}
		return
	}
	switch g.pick(6, 1, 2, 3) {
	case 1:
		for i, j := 0, len(r.Colls)-1; i < j; i, j = i+1, j-1 {
			r.Colls[i], r.Colls[j] = r.Colls[j], r.Colls[i]
		}
	case 2: // repeated kinds, interleaved
		r.Colls = append(r.Colls, r.Colls...)
	case 3:
		if len(r.Colls) > 0 {
			r.Colls = r.Colls[1:]
		}
	case 4:
		if len(r.Colls) > 0 {
			r.Colls = r.Colls[:1]
		}
	case 5: // many
		n := len(r.Colls)
		for i := 0; i < 130 && n > 0; i++ {
			x := r.Colls[i%n]
			x.Name = fmt.Sprint(x.Name, i)
			if len(x.Caps) > 5 {
				x.Caps = x.Caps[:5]
			}
			r.Colls = append(r.Colls, x)
		}
	}
}

// SmallTrees enumerates, at no deviation cost, every tree of up to max
// recordings in which each recording holds one of the given sets of parts.
func (g *Gen) SmallTree(max int, fill func(r *Rec, idx int)) *Rec {
	n := 1 + g.c.Free(max)
	nodes := []*Rec{{ID: "n0", Name: "node 0"}}
	fill(nodes[0], 0)
	for i := 1; i < n; i++ {
		p := nodes[g.c.Free(i)]
		x := &Rec{ID: fmt.Sprint("n", i), Name: fmt.Sprint("node ", i)}
		fill(x, i)
		p.Recs = append(p.Recs, x)
		nodes = append(nodes, x)
	}
	return nodes[0]
}

// combos is a phase over all recordings that differ from the base in up to D
// details of short menus. g settles which recordings can be used.
func combos(name string, quick, thor int, what string, g func(g *Gen), body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: name, Bound: "recordings that differ from the base in at most D of about 60 details at once, each with a menu of one to five alternatives" + what, Quick: quick, Thor: thor, Body: func(c *eng.Ctx) {
		x := FullGen(c)
		x.Lean, x.Big = true, false
		if g != nil {
			g(x)
		}
		body(c, x.Rec())
	}}
}
