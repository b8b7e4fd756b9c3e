package checks

import (
	"fmt"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// dim is one thing a recording can have much of. The recording of size n is
// ordinary in every other respect and has neighbours around the large part, so
// that a misread of the large part disturbs something.
type dim struct {
	name string
	max  int // largest useful size
	rec  func(n int) *Rec
}

func intVal(i int) Val    { return Val{Kind: VInt, I: int32(i)} }
func strVal(s string) Val { return Val{Kind: VStr, S: s} }

// text of exactly n bytes that is different for different n and everywhere.
func text(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i*i/3+i+n)%36]
	}
	return string(b)
}

func around(colls ...Coll) *Rec {
	return &Rec{ID: "r", Name: "root", Meta: Meta{{"before", intVal(1)}},
		Colls: append(append([]Coll{oneColl(Event, 2)}, colls...), oneColl(Pos, 2), oneColl(Enum, 2)),
		Recs:  []*Rec{{ID: "after", Name: "after", Meta: Meta{{"shared", strVal("x")}}, Colls: []Coll{oneColl(Enum, 1)}}}}
}

var dims = func() (out []dim) {
	add := func(name string, max int, f func(n int) *Rec) { out = append(out, dim{name, max, f}) }
	for _, k := range Order {
		k := k
		add("captures of "+strip(k), 70000, func(n int) *Rec { return around(oneColl(k, n)) })
		add("collections of "+strip(k), 600, func(n int) *Rec {
			r := around()
			for i := 0; i < n; i++ {
				x := oneColl(k, 1+i%2)
				x.Name = fmt.Sprint("c", i)
				r.Colls = append(r.Colls, x)
			}
			return r
		})
		add("name of "+strip(k), 70000, func(n int) *Rec {
			x := oneColl(k, 2)
			x.Name = text(n)
			return around(x)
		})
		add("captures of a deep "+strip(k), 5000, func(n int) *Rec {
			r := around()
			r.Recs[0].Recs = []*Rec{{ID: "deep", Recs: []*Rec{{ID: "deeper", Colls: []Coll{oneColl(k, n), oneColl(k, 1)}}}}, {ID: "sibling", Colls: []Coll{oneColl(k, 2)}}}
			return r
		})
	}
	add("enum members", 70000, func(n int) *Rec {
		c := Coll{Kind: Enum, Name: "e"}
		for i := 0; i < n; i++ {
			c.Members = append(c.Members, fmt.Sprint("m", i))
			c.Caps = append(c.Caps, Cap{T: float64(i), I: n - 1 - i})
		}
		for i := 0; i < n; i++ {
			c.Caps = append(c.Caps, Cap{T: float64(n + i), I: i})
		}
		return around(c)
	})
	add("enum members without captures", 5000, func(n int) *Rec {
		c := Coll{Kind: Enum, Name: "e"}
		for i := 0; i < n; i++ {
			c.Members = append(c.Members, fmt.Sprint("m", i))
		}
		return around(c)
	})
	add("enum member name", 70000, func(n int) *Rec {
		return around(Coll{Kind: Enum, Name: "e", Members: []string{"a", text(n), "b"}, Caps: []Cap{{T: 1, I: 2}, {T: 2, I: 1}, {T: 3}}})
	})
	add("enums with members of their own", 600, func(n int) *Rec {
		r := around()
		for i := 0; i < n; i++ {
			r.Colls = append(r.Colls, Coll{Kind: Enum, Name: "e", Members: []string{fmt.Sprint("a", i), "shared", fmt.Sprint("b", i)}, Caps: []Cap{{T: 1, I: i % 3}, {T: 2, I: (i + 1) % 3}}})
		}
		return r
	})
	add("distinct event names and keys", 5000, func(n int) *Rec {
		c := Coll{Kind: Event, Name: "e"}
		for i := 0; i < n; i++ {
			c.Caps = append(c.Caps, Cap{T: float64(i), Name: fmt.Sprint("name", i), Meta: Meta{{fmt.Sprint("key", i), intVal(i)}}})
		}
		for i := 0; i < n; i++ {
			c.Caps = append(c.Caps, Cap{T: float64(n + i), Name: fmt.Sprint("name", n-1-i), Meta: Meta{{fmt.Sprint("key", i), intVal(-i)}}})
		}
		return around(c)
	})
	add("events sharing names and keys", 5000, func(n int) *Rec {
		c := Coll{Kind: Event, Name: "e"}
		for i := 0; i < n; i++ {
			c.Caps = append(c.Caps, Cap{T: float64(i), Name: fmt.Sprint("name", i%3), Meta: Meta{{fmt.Sprint("key", i%2), intVal(i)}, {fmt.Sprint("key", 2+i%5), strVal("s")}}})
		}
		return around(c)
	})
	add("event name", 70000, func(n int) *Rec {
		return around(Coll{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "a"}, {T: 2, Name: text(n), Meta: Meta{{"k", intVal(1)}}}, {T: 3, Name: "b"}}})
	})
	holders := []struct {
		name string
		put  func(r *Rec, m Meta)
	}{
		{"root", func(r *Rec, m Meta) { r.Meta = m }},
		{"child", func(r *Rec, m Meta) { r.Recs[0].Meta = m }},
		{"event", func(r *Rec, m Meta) { r.Colls[0].Caps[0].Meta = m }},
		{"reference", func(r *Rec, m Meta) {
			r.Refs = []Ref{{Name: "ref", URI: "u", Size: 7, Meta: m}, {Name: "next", Size: 9}}
		}},
		{"binary", func(r *Rec, m Meta) {
			r.Bins = []Bin{{Name: "bin", Data: []byte("data"), Meta: m}, {Name: "next", Data: []byte("more")}}
		}},
		{"nested block", func(r *Rec, m Meta) {
			r.Meta = Meta{{"o", Val{Kind: VBlock, M: Meta{{"i", Val{Kind: VBlock, M: m}}, {"z", intVal(1)}}}}, {"z", intVal(2)}}
		}},
		{"block in an array", func(r *Rec, m Meta) {
			r.Meta = Meta{{"o", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: Meta{{"q", intVal(3)}}}, {Kind: VBlock, M: m}}}}, {"z", intVal(2)}}
		}},
	}
	for _, h := range holders {
		h := h
		add("keys of a "+h.name, 5000, func(n int) *Rec {
			r := around()
			r.Colls[0] = oneColl(Event, 2)
			h.put(r, manyKeys(n, "key"))
			return r
		})
	}
	add("length of a key", 70000, func(n int) *Rec {
		r := around()
		r.Meta = Meta{{text(n), Val{Kind: VBlock, M: Meta{{text(n) + "q", intVal(1)}}}}, {"after", intVal(2)}}
		return r
	})
	add("length of a text value", 70000, func(n int) *Rec {
		r := around()
		r.Meta = Meta{{"a", strVal(text(n))}, {"b", Val{Kind: VArr, Elem: VStr, Arr: []Val{strVal("q"), strVal(text(n)), strVal("")}}}, {"c", intVal(2)}}
		return r
	})
	for _, k := range []VK{VStr, VInt, VF32, VVec2, VVec3, VTime, VBlock} {
		k := k
		max := 70000
		if k == VBlock {
			max = 5000
		}
		add(fmt.Sprint("items of an array of kind ", k), max, func(n int) *Rec {
			r := around()
			r.Meta = Meta{{"a", arr(k, n)}, {"b", strVal("after")}}
			return r
		})
	}
	for _, k := range []VK{VBoolArr, VBytes} {
		k := k
		add(fmt.Sprint("items of an array of kind ", k), 70000, func(n int) *Rec {
			r := around()
			r.Meta = Meta{{"a", raw(k, n)}, {"b", strVal("after")}}
			return r
		})
	}
	add("nesting of blocks", 300, func(n int) *Rec {
		r := around()
		v := Val{Kind: VBlock, M: Meta{{"leaf", intVal(n)}}}
		for i := 0; i < n; i++ {
			v = Val{Kind: VBlock, M: Meta{{fmt.Sprint("k", i%3), v}, {"also", intVal(i)}}}
		}
		r.Meta = Meta{{"deep", v}, {"after", intVal(2)}}
		return r
	})
	add("nesting of arrays of blocks", 300, func(n int) *Rec {
		r := around()
		v := Val{Kind: VBlock, M: Meta{{"leaf", intVal(n)}}}
		for i := 0; i < n; i++ {
			v = Val{Kind: VBlock, M: Meta{{"k", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: Meta{{"x", intVal(i)}}}, v}}}, {"also", intVal(i)}}}
		}
		r.Meta = Meta{{"deep", v}, {"after", intVal(2)}}
		return r
	})
	add("recordings at depth 1", 5000, func(n int) *Rec {
		r := around()
		for i := 0; i < n; i++ {
			r.Recs = append(r.Recs, &Rec{ID: fmt.Sprint("s", i), Name: fmt.Sprint("name", i), Colls: []Coll{oneColl(Order[i%4], 1)}})
		}
		return r
	})
	add("recordings at depth 3", 5000, func(n int) *Rec {
		r := around()
		p := &Rec{ID: "p"}
		r.Recs[0].Recs = []*Rec{{ID: "first"}, p, {ID: "last", Colls: []Coll{oneColl(Pos, 1)}}}
		for i := 0; i < n; i++ {
			p.Recs = append(p.Recs, &Rec{ID: fmt.Sprint("s", i), Name: fmt.Sprint("name", i), Meta: Meta{{"i", intVal(i)}}})
		}
		return r
	})
	add("depth of the tree", 300, func(n int) *Rec {
		r := around()
		cur := r.Recs[0]
		for i := 0; i < n; i++ {
			x := &Rec{ID: fmt.Sprint("d", i), Name: "d", Meta: Meta{{"i", intVal(i)}}, Colls: []Coll{oneColl(Order[i%4], i%3)}}
			cur.Recs = []*Rec{x, {ID: fmt.Sprint("e", i)}}
			cur = x
		}
		return r
	})
	add("depth of an otherwise empty tree", 300, func(n int) *Rec {
		r := &Rec{ID: "r"}
		cur := r
		for i := 0; i < n; i++ {
			x := &Rec{}
			cur.Recs = []*Rec{x}
			cur = x
		}
		cur.Colls = []Coll{oneColl(Pos, 2)}
		return r
	})
	at := func(d int, f func(r *Rec, n int)) func(n int) *Rec {
		return func(n int) *Rec {
			r := around()
			x := r
			if d > 0 {
				x = r.Recs[0]
			}
			f(x, n)
			return r
		}
	}
	for d, w := range []string{"the root", "a child"} {
		add("references of "+w, 5000, at(d, func(r *Rec, n int) {
			for i := 0; i < n; i++ {
				r.Refs = append(r.Refs, Ref{Name: fmt.Sprint("n", i), URI: fmt.Sprint("u", i), Size: uint64(i), Meta: Meta{{"i", intVal(i)}}})
			}
		}))
		add("binaries of "+w, 5000, at(d, func(r *Rec, n int) {
			for i := 0; i < n; i++ {
				r.Bins = append(r.Bins, Bin{Name: fmt.Sprint("n", i), Data: []byte(fmt.Sprint(i)), Meta: Meta{{"i", intVal(i)}}})
			}
		}))
		add("texts of "+w, 70000, at(d, func(r *Rec, n int) {
			r.ID, r.Name = text(n), text(n+1)
			r.Refs = []Ref{{Name: text(n), URI: text(n), Size: uint64(n)}}
			r.Bins = []Bin{{Name: text(n), Data: []byte("x")}}
		}))
		add("size of a binary of "+w, 200000, at(d, func(r *Rec, n int) {
			r.Bins = []Bin{{Name: "a", Data: raw(VBytes, n).Raw}, {Name: "b", Data: []byte("next")}}
		}))
	}
	return
}()

var sizeMenu = func() (a []int) {
	for i := 0; i <= 20; i++ {
		a = append(a, i)
	}
	for _, p := range []int{32, 64, 128, 256, 512, 1024, 2048, 4096} {
		a = append(a, p-1, p, p+1)
	}
	return append(a, 24, 25, 50, 99, 100, 101, 300, 1000, 2000, 5000)
}()

var sizeMenuThor = func() (a []int) {
	for i := 0; i <= 300; i++ {
		a = append(a, i)
	}
	for _, p := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
		a = append(a, p-2, p-1, p, p+1, p+2)
	}
	return append(a, 999, 1000, 1001, 2000, 5000, 9999, 10000, 10001, 20000, 70000)
}()

// Sized chooses a dimension and a size; the quick tier's sizes go up to max.
func Sized(c *eng.Ctx, max int) *Rec {
	d := dims[c.Free(len(dims))]
	menu := sizeMenu
	if c.Tier == "thorough" {
		menu = sizeMenuThor
	}
	if d.max < max {
		max = d.max
	}
	var fit []int
	for _, s := range menu {
		if s <= max {
			fit = append(fit, s)
		}
	}
	n := fit[c.Free(len(fit))]
	c.Describe(func() string { return fmt.Sprintf("%d %s", n, d.name) })
	return d.rec(n)
}

// sizesBound describes Sized.
const sizesBound = "each of %d dimensions (captures, collections, names, members, keys, arrays, nesting, tree width and depth, references, binaries) at all sizes 0..20 (thorough 0..300) and 2^k-1, 2^k, 2^k+1 up to %d"

// depth sets how many details the combinations of a check's quick run change.
func depth(n int, p eng.Phase) eng.Phase {
	for i := range p.More {
		if p.More[i].Name == "combinations" {
			p.More[i].Quick = n
		}
	}
	return p
}

// sizesPhase is a phase over all dimensions and sizes, and phases over alike
// parts and texts.
func sizesPhase(quick, thor int, what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	p := onlySizes(quick, thor, what, body)
	p.More = []eng.Phase{twinsPhase(what, body), lookPhase(what, body), spelledPhase(what, body), combos("combinations", 3, 3, what, func(g *Gen) { g.Finite, g.Chrono, g.Text = true, true, true }, body)}
	if quick >= 5000 {
		p.More = append(p.More, hugePhase(what, body))
	}
	return p
}

func onlySizes(quick, thor int, what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: "dimensions", Bound: fmt.Sprintf(sizesBound, len(dims), quick) + fmt.Sprintf(" (thorough %d)", thor) + what, Body: func(c *eng.Ctx) {
		max := quick
		if c.Tier == "thorough" {
			max = thor
		}
		body(c, Sized(c, max))
	}}
}

type v1dim struct {
	name string
	max  int
	rec  func(n int) *V1Rec
}

var v1dims = func() (out []v1dim) {
	base := func() *V1Rec {
		r := &V1Rec{Name: "v1", Meta: [][2]string{{"a", "1.5"}}, Events: []V1Event{{T: 1, Name: "first", Contents: "c"}}}
		for i := 0; i < 3; i++ {
			r.Subjects = append(r.Subjects, V1Subject{ID: int32(i + 1), Name: fmt.Sprint("s", i), Meta: [][2]string{{"k", "v"}},
				Pos: []V1Vec{{1, 1, 2, 3}, {2, 3, 4, 5}}, Rot: []V1Vec{{1, 10, 20, 30}}, Events: []V1Event{{T: 2, Name: "e", Data: [][2]string{{"x", "y"}}}}, Life: []V1Life{{1, 0}, {3, 1}}})
		}
		return r
	}
	add := func(name string, max int, f func(r *V1Rec, s *V1Subject, n int)) {
		out = append(out, v1dim{name, max, func(n int) *V1Rec {
			r := base()
			f(r, &r.Subjects[1], n)
			return r
		}})
	}
	dict := func(n int) (d [][2]string) {
		for i := 0; i < n; i++ {
			d = append(d, [2]string{fmt.Sprint("key", i), []string{fmt.Sprint(i), "t", "2.5"}[i%3]})
		}
		return
	}
	events := func(n int) (e []V1Event) {
		for i := 0; i < n; i++ {
			x := V1Event{T: float32(i), Name: fmt.Sprint("n", i%40), Contents: fmt.Sprint("c", i)}
			if i%3 == 1 {
				x.Data = dict(1 + i%2)
			}
			e = append(e, x)
		}
		return
	}
	add("subjects", 3000, func(r *V1Rec, s *V1Subject, n int) {
		r.Subjects = nil
		for i := 0; i < n; i++ {
			r.Subjects = append(r.Subjects, V1Subject{ID: int32(n - i), Name: fmt.Sprint("s", i), Pos: []V1Vec{{float32(i), 1, 2, 3}}})
		}
	})
	add("empty subjects", 5000, func(r *V1Rec, s *V1Subject, n int) { r.Subjects = make([]V1Subject, n) })
	add("events", 3000, func(r *V1Rec, s *V1Subject, n int) { r.Events = events(n) })
	add("events of a subject", 3000, func(r *V1Rec, s *V1Subject, n int) { s.Events = events(n) })
	add("positions", 20000, func(r *V1Rec, s *V1Subject, n int) {
		s.Pos = nil
		for i := 0; i < n; i++ {
			s.Pos = append(s.Pos, V1Vec{float32(i) * 0.5, float32(i), float32(i % 5), -2})
		}
	})
	add("rotations", 20000, func(r *V1Rec, s *V1Subject, n int) {
		s.Rot = nil
		for i := 0; i < n; i++ {
			s.Rot = append(s.Rot, V1Vec{float32(i) * 0.5, float32(i % 360), float32(i % 5), -2})
		}
	})
	add("life-cycle states", 20000, func(r *V1Rec, s *V1Subject, n int) {
		s.Life = nil
		for i := 0; i < n; i++ {
			s.Life = append(s.Life, V1Life{float32(i) * 0.5, int32(i % 4)})
		}
	})
	add("metadata", 5000, func(r *V1Rec, s *V1Subject, n int) { r.Meta = dict(n) })
	add("metadata of a subject", 5000, func(r *V1Rec, s *V1Subject, n int) { s.Meta = dict(n) })
	add("data of an event", 5000, func(r *V1Rec, s *V1Subject, n int) { r.Events[0].Data = dict(n) })
	add("data of an event of a subject", 5000, func(r *V1Rec, s *V1Subject, n int) { s.Events[0].Data = dict(n) })
	add("length of names", 70000, func(r *V1Rec, s *V1Subject, n int) { r.Name, s.Name = text(n), text(n+1) })
	add("length of event texts", 70000, func(r *V1Rec, s *V1Subject, n int) {
		r.Events[0].Contents, s.Events[0].Name, s.Events[0].Data = text(n), text(n), [][2]string{{"q", text(n + 1)}, {text(n), "1"}}
		r.Events = append(r.Events, V1Event{T: 3, Name: text(n), Contents: text(n)})
	})
	return
}()

// v1Sized chooses a dimension and a size of a version 1 recording.
func v1Sized(c *eng.Ctx, max int) *V1Rec {
	d := v1dims[c.Free(len(v1dims))]
	menu := sizeMenu
	if c.Tier == "thorough" {
		menu = sizeMenuThor
	}
	if d.max < max {
		max = d.max
	}
	var fit []int
	for _, s := range menu {
		if s <= max {
			fit = append(fit, s)
		}
	}
	n := fit[c.Free(len(fit))]
	c.Describe(func() string { return fmt.Sprintf("%d %s", n, d.name) })
	return d.rec(n)
}

func v1SizesPhase(quick, thor int, body func(c *eng.Ctx, r *V1Rec)) eng.Phase {
	return eng.Phase{More: append(v1Alike(body), v1HugePhase(body)), Name: "dimensions", Bound: fmt.Sprintf("each of %d dimensions of version 1 recordings (subjects, captures, events, dictionaries, texts) at all sizes 0..20 (thorough 0..300) and 2^k-1, 2^k, 2^k+1 up to %d (thorough %d)", len(v1dims), quick, thor), Body: func(c *eng.Ctx) {
		max := quick
		if c.Tier == "thorough" {
			max = thor
		}
		body(c, v1Sized(c, max))
	}}
}

func v1HugePhase(body func(c *eng.Ctx, r *V1Rec)) eng.Phase {
	return eng.Phase{Name: "past 16 bits", Bound: fmt.Sprintf("each of %d dimensions of version 1 recordings at size 65537 (thorough: also 65535, 65536 and 70001)", len(v1dims)), Body: func(c *eng.Ctx) {
		d := v1dims[c.Free(len(v1dims))]
		n := []int{65537, 65535, 65536, 70001}[c.Free(map[bool]int{false: 1, true: 4}[c.Tier == "thorough"])]
		if d.max < n {
			c.Skip()
		}
		c.Describe(func() string { return fmt.Sprintf("%d %s", n, d.name) })
		body(c, d.rec(n))
	}}
}

// blocksOf lists the distinct large and small blocks of a recording.
func blocksOf(m *Rec) (out []Meta) {
	for i, n := range nodes(m) {
		if i > 20 {
			break
		}
		out = append(out, n.Meta)
		for _, x := range n.Refs {
			out = append(out, x.Meta)
		}
		for _, x := range n.Bins {
			out = append(out, x.Meta)
		}
		for _, k := range n.Colls {
			for _, p := range k.Caps {
				if k.Kind == Event {
					out = append(out, p.Meta)
				}
			}
		}
	}
	if len(out) > 60 {
		out = out[:60]
	}
	return
}
