package checks

import (
	"fmt"
	"strings"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// Two parts of a recording that are alike in some respects and differ in
// others: nothing may merge, drop or confuse them.

// rel chooses two texts: equal, different, both empty, one empty.
func rel(c *eng.Ctx) (string, string) {
	switch c.Free(4) {
	case 0:
		return "same", "same"
	case 1:
		return "one", "two"
	case 2:
		return "", ""
	}
	return "one", ""
}

// relMeta chooses two blocks.
func relMeta(c *eng.Ctx) (Meta, Meta) {
	a := Meta{{"k", intVal(1)}, {"s", strVal("v")}}
	switch c.Free(5) {
	case 0:
		return a, a
	case 1:
		return a, Meta{{"k", intVal(2)}, {"s", strVal("w")}}
	case 2:
		return a, Meta{{"q", intVal(1)}, {"r", strVal("v")}}
	case 3:
		return a, nil
	}
	return nil, nil
}

func relCaps(c *eng.Ctx, kind string) (a, b Coll) {
	a, b = oneColl(kind, 3), oneColl(kind, 3)
	switch c.Free(5) {
	case 0:
	case 1:
		for i := range b.Caps {
			switch kind {
			case Event:
				b.Caps[i].Name += "x"
			case Enum:
				b.Caps[i].I = 1 - b.Caps[i].I
			case Float:
				b.Caps[i].V = [3]float64{9 + float64(i)}
			default:
				b.Caps[i].V = [3]float64{9, float64(i), 8}
			}
		}
	case 2:
		for i := range b.Caps {
			b.Caps[i].T += 100
		}
	case 3:
		b = oneColl(kind, 1)
	case 4:
		b = oneColl(kind, 0)
	}
	return
}

// place2 puts two of something in a tree of recordings; at(r, 0) puts the
// first, at(r, 1) the second, at(r, 2) something ordinary.
func place2(c *eng.Ctx, at func(r *Rec, i int)) *Rec {
	r := &Rec{ID: "root", Name: "r"}
	kid := func(p *Rec) *Rec {
		x := &Rec{ID: fmt.Sprint(p.ID, len(p.Recs)), Name: "n"}
		p.Recs = append(p.Recs, x)
		return x
	}
	switch c.Free(6) {
	case 0: // one after the other
		at(r, 0)
		at(r, 1)
		at(r, 2)
	case 1: // with another one between
		at(r, 2)
		at(r, 0)
		at(r, 2)
		at(r, 1)
	case 2: // recording and sub-recording
		at(r, 0)
		at(kid(r), 1)
	case 3: // sub-recordings
		a, b := kid(r), kid(r)
		at(a, 0)
		at(b, 1)
		at(kid(b), 2)
	case 4: // at different depths
		a, b := kid(r), kid(r)
		at(kid(kid(a)), 0)
		at(b, 1)
	case 5: // in a sub-recording, one after the other
		a := kid(kid(r))
		at(r, 2)
		at(a, 0)
		at(a, 1)
	}
	return r
}

// twinRec is a recording with two parts that are alike.
func twinRec(c *eng.Ctx) *Rec {
	m := twinParts(c)
	c.Describe(func() string { return m.String() })
	return m
}

func twinParts(c *eng.Ctx) *Rec {
	switch c.Free(5) {
	case 0: // recordings
		a, b := &Rec{}, &Rec{}
		a.ID, b.ID = rel(c)
		a.Name, b.Name = rel(c)
		a.Meta, b.Meta = relMeta(c)
		switch c.Free(4) {
		case 1:
			a.Colls, b.Colls = []Coll{oneColl(Pos, 2), oneColl(Enum, 1)}, []Coll{oneColl(Pos, 2), oneColl(Enum, 1)}
		case 2:
			x, y := oneColl(Event, 2), oneColl(Event, 2)
			y.Caps[1].Name = "other"
			a.Colls, b.Colls = []Coll{x}, []Coll{y}
		case 3:
			a.Colls = []Coll{oneColl(Euler, 1)}
		}
		switch c.Free(3) {
		case 1:
			a.Recs, b.Recs = []*Rec{{ID: "leaf"}}, []*Rec{{ID: "leaf"}}
		case 2:
			x := Bin{Name: "b", Data: []byte("data")}
			a.Bins, b.Bins = []Bin{x, x}, []Bin{x}
			a.Refs, b.Refs = []Ref{{Name: "f", URI: "u"}}, []Ref{{Name: "f", URI: "u"}}
		}
		return place2(c, func(r *Rec, i int) {
			r.Recs = append(r.Recs, []*Rec{a, b, {ID: "another", Colls: []Coll{oneColl(Pos, 1)}}}[i])
		})
	case 1: // collections
		k := Order[c.Free(len(Order))]
		a, b := relCaps(c, k)
		a.Name, b.Name = rel(c)
		if k == Enum {
			switch c.Free(5) {
			case 1:
				b.Members = []string{"Off", "On"}
			case 2:
				b.Members = []string{"A", "B"}
			case 3:
				b.Members = []string{"On", "Off", "On"}
			case 4:
				b.Members = []string{"On"}
			}
		}
		return place2(c, func(r *Rec, i int) {
			x := oneColl(Pos, 1)
			if k == Pos {
				x = oneColl(Euler, 1)
			}
			r.Colls = append(r.Colls, []Coll{a, b, x}[i])
		})
	case 2: // references
		var a, b Ref
		a.Name, b.Name = rel(c)
		a.URI, b.URI = rel(c)
		a.Size, b.Size = 7, 7
		if c.Free(2) == 1 {
			b.Size = 300
		}
		a.Meta, b.Meta = relMeta(c)
		return place2(c, func(r *Rec, i int) { r.Refs = append(r.Refs, []Ref{a, b, {Name: "x", URI: "y"}}[i]) })
	case 3: // binaries
		var a, b Bin
		a.Name, b.Name = rel(c)
		a.Data, b.Data = []byte("data"), []byte("data")
		switch c.Free(5) {
		case 1:
			b.Data = []byte("dats")
		case 2:
			b.Data = []byte("dat")
		case 3:
			b.Data = []byte{}
		case 4:
			a.Data, b.Data = []byte{}, []byte{}
		}
		a.Meta, b.Meta = relMeta(c)
		return place2(c, func(r *Rec, i int) { r.Bins = append(r.Bins, []Bin{a, b, {Name: "x", Data: []byte("y")}}[i]) })
	}
	// captures of one stream
	k := Order[c.Free(len(Order))]
	a, b := Cap{T: 1}, Cap{T: 1}
	switch k {
	case Event:
		a.Name, b.Name = rel(c)
		a.Meta, b.Meta = relMeta(c)
	case Enum:
		a.I, b.I = 1, 1-c.Free(2)
	case Float:
		a.V, b.V = [3]float64{1}, [3]float64{1 + float64(c.Free(2))}
	default:
		a.V, b.V = [3]float64{1, 2, 3}, [3]float64{1, 2, 3}
		if c.Free(2) == 1 {
			b.V = [3]float64{4, 2, 7}
		}
	}
	if c.Free(2) == 1 {
		b.T = 2
	}
	x := Coll{Kind: k, Name: "x"}
	if k == Enum {
		x.Members = []string{"a", "b"}
	}
	n := 1 + c.Free(4)
	second := false
	for i := 0; i < n; i++ {
		if !second && b.T == 2 && i > 0 || b.T == 1 {
			second = c.Free(2) == 1
		}
		x.Caps = append(x.Caps, []Cap{a, b}[bit(second)])
	}
	m := around(x)
	return m
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func twinsPhase(what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: "twins", Bound: "two recordings, collections, references, binaries or captures that agree or differ in each of their fields (all combinations), in 6 places relative to each other" + what, Body: func(c *eng.Ctx) { body(c, twinRec(c)) }}
}

// lookalike lengths
var lookLens = func() (a []int) {
	for i := 1; i <= 40; i++ {
		a = append(a, i)
	}
	return append(a, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513)
}()

// lookalikes chooses two different texts that are easily taken for each other.
func lookalikes(c *eng.Ctx) (string, string) {
	n := lookLens[c.Free(len(lookLens))]
	a := "K" + text(n-1)
	flip := func(i int) string {
		b := []byte(a)
		b[i] ^= 1
		return string(b)
	}
	switch c.Free(10) {
	case 0:
		return a, flip(0)
	case 1:
		return a, flip(n / 2)
	case 2:
		return a, flip(n - 1)
	case 3:
		return a, a + "K"
	case 4:
		return a, a + "\x00"
	case 5:
		return a, a + " "
	case 6:
		return a, " " + a
	case 7:
		return a, "k" + a[1:]
	case 8:
		return a, "\u212a" + a[1:] // the Kelvin sign folds to k
	}
	return a, a + a
}

// lookPlaces puts two texts where they could be mixed up.
var lookPlaces = []struct {
	name string
	rec  func(a, b string) *Rec
}{
	{"ids of siblings", func(a, b string) *Rec { return &Rec{Recs: []*Rec{{ID: a}, {ID: b}, {ID: a}}} }},
	{"names of siblings", func(a, b string) *Rec { return &Rec{Recs: []*Rec{{Name: a}, {Name: b}, {Name: a}}} }},
	{"id and name", func(a, b string) *Rec { return &Rec{ID: a, Name: b, Recs: []*Rec{{ID: b, Name: a}}} }},
	{"names of collections", func(a, b string) *Rec {
		x, y := oneColl(Pos, 2), oneColl(Pos, 3)
		x.Name, y.Name = a, b
		z := oneColl(Enum, 2)
		z.Name = b
		return &Rec{Colls: []Coll{x, y, z, x}}
	}},
	{"event names", func(a, b string) *Rec {
		return &Rec{Colls: []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: a}, {T: 2, Name: b}, {T: 3, Name: a}}}, {Kind: Event, Name: "f", Caps: []Cap{{T: 1, Name: b}, {T: 2, Name: a}}}}}
	}},
	{"keys of an event", func(a, b string) *Rec {
		return &Rec{Colls: []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: a, Meta: Meta{{a, intVal(1)}, {b, intVal(2)}}}, {T: 2, Meta: Meta{{b, strVal(a)}}}, {T: 3, Meta: Meta{{a, strVal(b)}}}}}}}
	}},
	{"enum members", func(a, b string) *Rec {
		return &Rec{Colls: []Coll{{Kind: Enum, Name: "e", Members: []string{a, b}, Caps: []Cap{{T: 1, I: 1}, {T: 2}}}, {Kind: Enum, Name: "f", Members: []string{b, "q", a}, Caps: []Cap{{T: 1, I: 2}, {T: 2}}}}}
	}},
	{"keys of recordings", func(a, b string) *Rec {
		return &Rec{Meta: Meta{{a, intVal(1)}, {b, intVal(2)}}, Recs: []*Rec{{Meta: Meta{{b, strVal("b")}}}, {Meta: Meta{{a, strVal("a")}}}}}
	}},
	{"keys of references and binaries", func(a, b string) *Rec {
		return &Rec{Refs: []Ref{{Meta: Meta{{a, intVal(1)}}}, {Meta: Meta{{b, intVal(2)}}}}, Bins: []Bin{{Meta: Meta{{b, intVal(3)}}}, {Meta: Meta{{a, intVal(4)}}}}}
	}},
	{"nested keys", func(a, b string) *Rec {
		in := Val{Kind: VBlock, M: Meta{{a, intVal(1)}, {b, intVal(2)}}}
		return &Rec{Meta: Meta{{"o", Val{Kind: VBlock, M: Meta{{a, in}, {b, Val{Kind: VArr, Elem: VBlock, Arr: []Val{in, {Kind: VBlock, M: Meta{{b, intVal(3)}}}}}}}}}}}
	}},
	{"references", func(a, b string) *Rec {
		return &Rec{Refs: []Ref{{Name: a, URI: b, Size: 1}, {Name: b, URI: a, Size: 2}, {Name: a, URI: a, Size: 3}}}
	}},
	{"binaries", func(a, b string) *Rec {
		return &Rec{Bins: []Bin{{Name: a, Data: []byte(b)}, {Name: b, Data: []byte(a)}, {Name: a, Data: []byte(a)}}}
	}},
	{"values", func(a, b string) *Rec {
		return &Rec{Meta: Meta{{"a", strVal(a)}, {"b", strVal(b)}, {"c", Val{Kind: VArr, Elem: VStr, Arr: []Val{strVal(a), strVal(b), strVal(a)}}}, {"d", Val{Kind: VBytes, Raw: []byte(b)}}}}
	}},
}

func lookRec(c *eng.Ctx) *Rec {
	a, b := lookalikes(c)
	p := lookPlaces[c.Free(len(lookPlaces))]
	c.Describe(func() string { return fmt.Sprintf("%s: %q %q", p.name, a, b) })
	return p.rec(a, b)
}

func lookPhase(what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: "lookalikes", Bound: fmt.Sprintf("two texts of %d lengths up to 513 that differ in their first, middle or last byte, in case, by a prefix, a trailing NUL or blank, at each of %d pairs of places", len(lookLens), len(lookPlaces)) + what, Body: func(c *eng.Ctx) { body(c, lookRec(c)) }}
}

// spelled are texts that mean something in a format or a program.
var spelled = []string{
	`\u0026`, `\u003c`, `\u2028`, `\n`, `\\`, `\"`, `"`, `""`, `'`, "`", `\x00`, `\0`, `%s`, `%d%n`, `%!d(MISSING)`, `%%`, `%00`, `%20`, "{{.}}", "${x}", "$x", "$set", "_id", "&amp;", "<a href=\"x\">", "</script>", "<!--",
	"null", "nil", "<nil>", "true", "false", "1", "0", "-1.5e3", "NaN", "Inf", "[]", "{}", "[1,2]", `{"x":1,"y":2}`, `"quoted"`, "a,b", "a;b", "a|b", "a:b", "a=b", "a.b", "a/b", "../a", "/etc", "a\\b", "a b", " a ", "\ta\t", "a\r\n", "\r", "\n",
	"x", "y", "z", "t", "type", "name", "id", "time", "value", "values", "data", "metadata", "collections", "recordings", "captures", "recolude", "recolude.event", "recolude.position", "recolude.euler", "recolude.enum", "Position", "Rotation", "Custom Events", "Life Cycle", "Default", "default", "none", "unknown", "undefined", "Start", "END", "root",
	"#", "//", "/* */", "--", "=1+1", "@a", "*", "?", "~", "^", "$", "\ufeff", "\ufeffa", "e\u0301", "\u00e9", "\u202eabc", "\u200d", "\u00a0", "\u3000", "\x7f", "\x1b[0m", "\x1a", "\x04", "İ", "ß", "ﬁ", "\u0000\u0001\u0002", "\U0001F468\u200d\U0001F469", "\U0010FFFF", "\uFFFD",
}

// spelledRec has such a text and its neighbour at one of the places.
func spelledRec(c *eng.Ctx) *Rec {
	i := c.Free(len(spelled))
	a, b := spelled[i], spelled[(i+1)%len(spelled)]
	p := lookPlaces[c.Free(len(lookPlaces))]
	c.Describe(func() string { return fmt.Sprintf("%s: %q %q", p.name, a, b) })
	return p.rec(a, b)
}

func spelledPhase(what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: "spelled", Bound: fmt.Sprintf("each of %d texts that mean something elsewhere (escapes, verbs, separators, literals, field names, odd characters) and its neighbour at each of %d pairs of places", len(spelled), len(lookPlaces)) + what, Body: func(c *eng.Ctx) { body(c, spelledRec(c)) }}
}

// hugeDims are the dimensions that can exceed 16 bits.
var hugeDims = func() (out []dim) {
	for _, d := range dims {
		if d.max >= 5000 || strings.HasPrefix(d.name, "collections of ") {
			out = append(out, d)
		}
	}
	return
}()

func hugePhase(what string, body func(c *eng.Ctx, m *Rec)) eng.Phase {
	return eng.Phase{Name: "past 16 bits", Bound: fmt.Sprintf("each of %d dimensions at size 65537 (thorough: also 65535, 65536 and 70001)", len(hugeDims)) + what, Body: func(c *eng.Ctx) {
		d := hugeDims[c.Free(len(hugeDims))]
		n := 65537
		if c.Tier == "thorough" {
			n = []int{65537, 65535, 65536, 70001}[c.Free(4)]
		}
		c.Describe(func() string { return fmt.Sprintf("%d %s", n, d.name) })
		body(c, d.rec(n))
	}}
}

// Version 1 recordings: the same ideas.

// v1Twin is a version 1 recording with two parts that are alike.
func v1Twin(c *eng.Ctx) *V1Rec {
	relDict := func() (a, b [][2]string) {
		a = [][2]string{{"k", "1.5"}, {"s", "v"}}
		switch c.Free(5) {
		case 0:
			return a, a
		case 1:
			return a, [][2]string{{"k", "2.5"}, {"s", "w"}}
		case 2:
			return a, [][2]string{{"q", "1.5"}, {"r", "v"}}
		case 3:
			return a, nil
		}
		return nil, nil
	}
	r := &V1Rec{Name: "r"}
	switch c.Free(4) {
	case 0: // subjects
		a, b := V1Subject{ID: 1}, V1Subject{ID: 1 + int32(c.Free(2))}
		a.Name, b.Name = rel(c)
		a.Meta, b.Meta = relDict()
		p := []V1Vec{{1, 2, 3, 4}, {2, 5, 6, 7}}
		switch c.Free(4) {
		case 1:
			a.Pos, b.Pos = p, p
			a.Events, b.Events = []V1Event{{T: 1, Name: "e"}}, []V1Event{{T: 1, Name: "e"}}
		case 2:
			a.Pos, b.Rot = p, p
			a.Life, b.Life = []V1Life{{1, 0}}, []V1Life{{1, 3}}
		case 3:
			a.Rot = p
		}
		x := V1Subject{ID: 9, Name: "x", Pos: p[:1]}
		r.Subjects = [][]V1Subject{{a, b}, {a, b, x}, {a, x, b}, {x, a, b}, {a, b, a, b}}[c.Free(5)]
		if c.Free(2) == 1 {
			r.Events = []V1Event{{T: 1, Name: "e"}}
			r.Meta = a.Meta
		}
	case 1, 2: // events
		a, b := V1Event{T: 1}, V1Event{T: 1 + float32(c.Free(2))}
		a.Name, b.Name = rel(c)
		a.Contents, b.Contents = rel(c)
		a.Data, b.Data = relDict()
		x, a2 := V1Event{T: 5, Name: "x"}, a
		between, first := x, x
		between.T, first.T, a2.T = 1, 0, b.T
		r.Subjects = []V1Subject{{ID: 1}, {ID: 2}}
		switch c.Free(6) {
		case 0:
			r.Events = []V1Event{a, b, x}
		case 1:
			r.Events = []V1Event{a, between, b}
		case 2:
			r.Events, r.Subjects[0].Events = []V1Event{a}, []V1Event{b}
		case 3:
			r.Subjects[0].Events, r.Subjects[1].Events = []V1Event{first, a}, []V1Event{b, x}
		case 4:
			r.Subjects[1].Events = []V1Event{a, b, a2}
		case 5:
			r.Events, r.Subjects[0].Events, r.Subjects[1].Events = []V1Event{a, b}, []V1Event{a, b}, []V1Event{b, a2}
		}
	case 3: // captures
		n := c.Free(5)
		r.Subjects = []V1Subject{{ID: 1}, {ID: 2}}
		kind, dt := c.Free(3), float32(c.Free(2))
		for i := 0; i < n; i++ {
			second := c.Free(2) == 1
			t, v := 1+dt*float32(i), float32(bit(second))
			s := &r.Subjects[c.Free(2)]
			switch kind {
			case 0:
				s.Pos = append(s.Pos, V1Vec{t, 1 + v, 2, 3 + v})
			case 1:
				s.Rot = append(s.Rot, V1Vec{t, 10, 20 + v, 30})
			case 2:
				s.Life = append(s.Life, V1Life{t, int32(bit(second)) * 2})
			}
		}
	}
	c.Describe(r.String)
	return r
}

var v1LookPlaces = []struct {
	name string
	rec  func(a, b string) *V1Rec
}{
	{"names of subjects", func(a, b string) *V1Rec {
		return &V1Rec{Name: a, Subjects: []V1Subject{{ID: 1, Name: a}, {ID: 2, Name: b}, {ID: 1, Name: a}}}
	}},
	{"names of events", func(a, b string) *V1Rec {
		return &V1Rec{Events: []V1Event{{T: 1, Name: a}, {T: 2, Name: b}, {T: 3, Name: a}}, Subjects: []V1Subject{{ID: 1, Events: []V1Event{{T: 1, Name: b}, {T: 2, Name: a}}}}}
	}},
	{"contents of events", func(a, b string) *V1Rec {
		return &V1Rec{Events: []V1Event{{T: 1, Contents: a}, {T: 2, Contents: b}}, Subjects: []V1Subject{{ID: 1, Events: []V1Event{{T: 1, Name: a, Contents: b}, {T: 2, Name: b, Contents: a}}}}}
	}},
	{"keys and values of an event", func(a, b string) *V1Rec {
		d := [][2]string{{a, b}, {b, a}}
		return &V1Rec{Events: []V1Event{{T: 1, Data: d}, {T: 2, Data: d[:1]}, {T: 3, Data: d[1:]}}, Subjects: []V1Subject{{ID: 1, Events: []V1Event{{T: 1, Data: d}}}}}
	}},
	{"keys and values of subjects", func(a, b string) *V1Rec {
		d := [][2]string{{a, a}, {b, b}}
		return &V1Rec{Meta: d, Subjects: []V1Subject{{ID: 1, Meta: d[1:]}, {ID: 2, Meta: d[:1]}, {ID: 3, Meta: d}}}
	}},
}

func v1Look(c *eng.Ctx) *V1Rec {
	a, b := lookalikes(c)
	p := v1LookPlaces[c.Free(len(v1LookPlaces))]
	c.Describe(func() string { return fmt.Sprintf("%s: %q %q", p.name, a, b) })
	return p.rec(a, b)
}

// v1Alike are the phases over alike parts and texts, and over large sizes, of
// version 1 recordings.
func v1Alike(body func(c *eng.Ctx, r *V1Rec)) []eng.Phase {
	return []eng.Phase{
		{Name: "twins", Bound: "two subjects, events or captures of a version 1 recording that agree or differ in each of their fields, in several places relative to each other", Body: func(c *eng.Ctx) { body(c, v1Twin(c)) }},
		{Name: "lookalikes", Bound: fmt.Sprintf("two texts of %d lengths up to 513 that differ in their first, middle or last byte, in case, by a prefix, a trailing NUL or blank, at each of %d pairs of places of version 1 recordings", len(lookLens), len(v1LookPlaces)), Body: func(c *eng.Ctx) { body(c, v1Look(c)) }},
		{Name: "spelled", Bound: fmt.Sprintf("each of %d texts that mean something elsewhere (escapes, verbs, separators, literals, field names, odd characters) and its neighbour at each of %d pairs of places of version 1 recordings", len(spelled), len(v1LookPlaces)), Body: func(c *eng.Ctx) {
			i := c.Free(len(spelled))
			a, b := spelled[i], spelled[(i+1)%len(spelled)]
			p := v1LookPlaces[c.Free(len(v1LookPlaces))]
			c.Describe(func() string { return fmt.Sprintf("%s: %q %q", p.name, a, b) })
			body(c, p.rec(a, b))
		}},
		{Name: "combinations", Bound: "messages that differ from a rich base in at most D of about 70 details at once, each with a menu of one to four alternatives", Quick: 2, Thor: 3, Body: func(c *eng.Ctx) {
			r := v1Gen(c, true, true, true)
			c.Describe(r.String)
			body(c, r)
		}},
		{Name: "states", Bound: "every sequence of at most 4 life-cycle states over 8 numbers, unknown to the library or not, in either of 2 subjects", Body: func(c *eng.Ctx) {
			vals := []int32{0, 3, 1, 4, 7, -1, 1 << 30, -1 << 31}
			r := &V1Rec{Subjects: []V1Subject{{ID: 1, Name: "a"}, {ID: 2, Name: "b", Life: []V1Life{{1, 2}}}}}
			s := &r.Subjects[c.Free(2)]
			s.Life = nil
			for n := c.Free(5); n > 0; n-- {
				s.Life = append(s.Life, V1Life{float32(10 - n), vals[c.Free(len(vals))]})
			}
			c.Describe(r.String)
			body(c, r)
		}},
		{Name: "past 16 bits", Bound: fmt.Sprintf("each of %d dimensions of version 1 recordings at size 65537", len(v1dims)), Body: func(c *eng.Ctx) {
			d := v1dims[c.Free(len(v1dims))]
			c.Describe(func() string { return "65537 " + d.name })
			body(c, d.rec(65537))
		}},
	}
}
