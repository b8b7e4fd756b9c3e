package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// ---- writing recordings as the documents the import reads

type jw struct {
	style int // 0 compact, 1 indented and escaped with keys reversed, 2 with extra keys and without empty parts
	b     strings.Builder
}

const jsonStyles = 3

func (w *jw) str(s string) string {
	var o strings.Builder
	o.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			o.WriteString("\\" + string(r))
		case r < 0x20 || w.style == 1 && (r > 0x7e || r == '/'):
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&o, "\\u%04x\\u%04X", 0xd800+r>>10, 0xdc00+r&0x3ff)
			} else {
				fmt.Fprintf(&o, "\\u%04x", r)
			}
		default:
			o.WriteRune(r)
		}
	}
	o.WriteByte('"')
	return o.String()
}

func (w *jw) num(f float64) string {
	if w.style == 1 {
		return strconv.FormatFloat(f, 'E', -1, 64)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// obj writes "key, value" pairs; empty values are left out.
func (w *jw) obj(kv ...string) string {
	var o []string
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			sep := ":"
			if w.style == 1 {
				sep = " :\t"
			}
			o = append(o, w.str(kv[i])+sep+kv[i+1])
		}
	}
	switch w.style {
	case 1:
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
		return "{ " + strings.Join(o, "\r\n , ") + "\n}"
	}
	return "{" + strings.Join(o, ",") + "}"
}

func (w *jw) arr(o []string) string {
	if w.style == 1 {
		return "[\n" + strings.Join(o, " ,\n") + " ]"
	}
	return "[" + strings.Join(o, ",") + "]"
}

func (w *jw) opt(n int, s string) string {
	if n == 0 && w.style == 2 {
		return ""
	}
	return s
}

func (w *jw) val(v Val) string {
	switch v.Kind {
	case VStr:
		return w.str(v.S)
	case VInt:
		return strconv.Itoa(int(v.I))
	case VF32:
		return strconv.FormatFloat(float64(v.F), 'g', -1, 32)
	case VBool:
		return fmt.Sprint(v.B)
	case VByte:
		return fmt.Sprintf(`"0x%02x"`, v.By)
	case VBytes:
		return fmt.Sprintf(`"0x%x"`, v.Raw)
	case VTime:
		return `"` + time.UnixMicro(v.T).UTC().Format(time.RFC3339Nano) + `"`
	case VVec2:
		return w.obj("x", w.num(v.V[0]), "y", w.num(v.V[1]))
	case VVec3:
		return w.obj("x", w.num(v.V[0]), "y", w.num(v.V[1]), "z", w.num(v.V[2]))
	case VBlock:
		return w.meta(v.M)
	}
	var o []string
	for _, b := range v.Raw {
		o = append(o, fmt.Sprint(b&1 == 1))
	}
	for _, e := range v.Arr {
		o = append(o, w.val(e))
	}
	return w.arr(o)
}

func (w *jw) meta(m Meta) string {
	var kv []string
	for _, e := range m {
		kv = append(kv, e.K, w.val(e.V))
	}
	return w.obj(kv...)
}

func (w *jw) rec(r *Rec) string {
	var refs, colls, recs []string
	for _, x := range r.Refs {
		refs = append(refs, w.obj("name", w.str(x.Name), "uri", w.str(x.URI), "size", strconv.FormatUint(x.Size, 10), "metadata", w.opt(len(x.Meta), w.meta(x.Meta))))
	}
	for _, x := range r.Colls {
		var caps []string
		for _, p := range x.Caps {
			var d string
			switch x.Kind {
			case Pos, Euler:
				d = w.obj("x", w.num(p.V[0]), "y", w.num(p.V[1]), "z", w.num(p.V[2]))
			case Enum:
				d = w.str(x.Members[p.I])
			case Event:
				d = w.obj("name", w.str(p.Name), "metadata", w.opt(len(p.Meta), w.meta(p.Meta)))
			}
			caps = append(caps, w.obj("time", w.num(p.T), "data", d))
		}
		colls = append(colls, w.obj("name", w.str(x.Name), "type", w.str(x.Kind), "captures", w.arr(caps)))
	}
	for _, x := range r.Recs {
		recs = append(recs, w.rec(x))
	}
	extra := ""
	if w.style == 2 {
		extra = `{"id":null,"recordings":[1,{"a":"b"}]}`
	}
	return w.obj("comment", extra, "id", w.str(r.ID), "name", w.str(r.Name), "metadata", w.opt(len(r.Meta), w.meta(r.Meta)), "references", w.opt(len(refs), w.arr(refs)),
		"collections", w.opt(len(colls), w.arr(colls)), "recordings", w.opt(len(recs), w.arr(recs)), "x-extra", extra)
}

// ---- the oracle: what a decoded document describes

var errNull = errors.New("an optional part is null")

func jsonRec(x interface{}) (*Rec, error) {
	d, ok := x.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("recording is not an object")
	}
	var err error
	note := func(e error) {
		if e != nil && (err == nil || err == errNull) {
			err = e
		}
	}
	str := func(d map[string]interface{}, k string) string {
		s, ok := d[k].(string)
		if !ok {
			note(fmt.Errorf("%s is not a string", k))
		}
		return s
	}
	num := func(d map[string]interface{}, k string) float64 {
		s, ok := d[k].(float64)
		if !ok {
			note(fmt.Errorf("%s is not a number", k))
		}
		return s
	}
	meta := func(d map[string]interface{}) Meta {
		v, has := d["metadata"]
		if !has {
			return nil
		}
		if v == nil {
			note(errNull)
			return nil
		}
		o, ok := v.(map[string]interface{})
		if !ok {
			note(fmt.Errorf("metadata is not an object"))
			return nil
		}
		m, e := jsonMeta(o)
		note(e)
		return m
	}
	list := func(d map[string]interface{}, k string, must bool) (out []map[string]interface{}) {
		v, has := d[k]
		if !has && !must {
			return nil
		}
		if v == nil && !must {
			note(errNull)
			return nil
		}
		a, ok := v.([]interface{})
		if !ok {
			note(fmt.Errorf("%s is not an array", k))
		}
		for _, e := range a {
			o, ok := e.(map[string]interface{})
			if !ok {
				note(fmt.Errorf("%s holds something else than objects", k))
			}
			out = append(out, o)
		}
		return
	}
	obj := func(d map[string]interface{}, k string) map[string]interface{} {
		o, ok := d[k].(map[string]interface{})
		if !ok {
			note(fmt.Errorf("%s is not an object", k))
		}
		return o
	}
	r := &Rec{ID: str(d, "id"), Name: str(d, "name"), Meta: meta(d)}
	for _, o := range list(d, "references", false) {
		n := num(o, "size")
		if n < 0 || n != math.Trunc(n) || n > 1<<62 {
			note(fmt.Errorf("size is %v", n))
		}
		r.Refs = append(r.Refs, Ref{Name: str(o, "name"), URI: str(o, "uri"), Size: uint64(n), Meta: meta(o)})
	}
	for _, o := range list(d, "collections", false) {
		x := Coll{Name: str(o, "name"), Kind: str(o, "type")}
		for _, p := range list(o, "captures", true) {
			y := Cap{T: num(p, "time")}
			switch x.Kind {
			case Pos, Euler:
				q := obj(p, "data")
				y.V = [3]float64{num(q, "x"), num(q, "y"), num(q, "z")}
			case Enum:
				y.Name = str(p, "data")
			case Event:
				q := obj(p, "data")
				y.Name, y.Meta = str(q, "name"), meta(q)
			}
			x.Caps = append(x.Caps, y)
		}
		if x.Kind != Pos && x.Kind != Euler && x.Kind != Enum && x.Kind != Event {
			note(fmt.Errorf("unknown type"))
		}
		r.Colls = append(r.Colls, x)
	}
	for _, o := range list(d, "recordings", false) {
		if o == nil {
			continue
		}
		s, e := jsonRec(o)
		note(e)
		r.Recs = append(r.Recs, s)
	}
	return r, err
}

// plainly gives what an imported recording says: metadata in canonical text,
// enum captures by member.
func plainly(r *Rec, named bool) (*Rec, error) {
	n := *r
	sm := func(m Meta) Meta { return Meta{{"said", Val{Kind: VStr, S: saidBlock(m)}}} }
	n.Meta = sm(r.Meta)
	n.Colls, n.Refs, n.Recs = nil, nil, nil
	for _, x := range r.Refs {
		x.Meta = sm(x.Meta)
		n.Refs = append(n.Refs, x)
	}
	for _, x := range r.Colls {
		caps := x.Caps
		x.Caps = nil
		for _, p := range caps {
			if x.Kind == Event {
				p.Meta = sm(p.Meta)
			}
			if x.Kind == Enum && !named {
				if p.I < 0 || p.I >= len(x.Members) {
					return nil, fmt.Errorf("enum capture names member %d of %q", p.I, x.Members)
				}
				p.Name = x.Members[p.I]
				p.I = 0
			}
			if x.Kind == Enum { // compared as events
				p.Meta = nil
			}
			x.Caps = append(x.Caps, p)
		}
		if x.Kind == Enum {
			x.Kind, x.Members, x.Name = Event, nil, "enum "+x.Name
		}
		n.Colls = append(n.Colls, x)
	}
	for _, x := range r.Recs {
		s, err := plainly(x, named)
		if err != nil {
			return nil, err
		}
		n.Recs = append(n.Recs, s)
	}
	return &n, nil
}

// importDoc imports a document and compares it with what the document says.
func importDoc(c *eng.Ctx, doc []byte, given *Rec) {
	orig := append([]byte{}, doc...)
	var rec format.Recording
	var err error
	c.NoPanic("importing JSON", func() { rec, err = parsing.FromJSON(doc) })
	if !bytes.Equal(orig, doc) {
		c.Fail("importing changed the document")
	}
	var want *Rec
	x, werr := strictJSON(doc)
	if werr == nil {
		want, werr = jsonRec(x)
	}
	if given != nil && werr != nil {
		panic(fmt.Sprintf("check: own document %s is wrong: %v", doc, werr))
	}
	if err != nil {
		if rec != nil {
			c.Fail("importing gives a recording and the error %v", err)
		}
		if werr == nil {
			c.Fail("importing fails: %v", err)
		}
		c.State("error", err.Error())
		return
	}
	if werr != nil && werr != errNull {
		c.Fail("a malformed document is imported: %v", werr)
	}
	got := Complete(c, rec)
	pg, e := plainly(got, false)
	if e != nil {
		c.Fail("imported recording is broken: %v", e)
	}
	pw, _ := plainly(want, true)
	Same(c, "imported", pw, pg, nil)
	if given != nil {
		pw, e = plainly(given, false)
		if e != nil {
			panic(e)
		}
		Same(c, "imported", pw, pg, nil)
	}
	file, _ := MustWrite(c, rec, Tech{Compress: len(doc)%2 == 0})
	back, _ := MustRead(c, file)
	Same(c, "imported, written and read", got, back, nil)
	c.State(got.Hash())
}

func writeDoc(r *Rec, style int) []byte {
	w := &jw{style: style}
	return []byte(w.rec(r))
}

// importParts gives a node of a tree one of several sets of parts.
func importParts(c *eng.Ctx, r *Rec, i int) {
	switch c.Free(7) {
	case 1:
		r.Colls = []Coll{oneColl(Pos, 2), oneColl(Enum, 3)}
	case 2:
		r.Colls = []Coll{oneColl(Event, 2)}
		r.Meta = Meta{{"m", Val{Kind: VStr, S: fmt.Sprint("v", i)}}}
	case 3:
		r.Colls = []Coll{oneColl(Euler, 1), oneColl(Enum, 0), oneColl(Pos, 0)}
		r.Refs = []Ref{{Name: fmt.Sprint("r", i), URI: "u", Size: uint64(i)}}
	case 4:
		r.Refs = []Ref{{Name: "a", URI: "b", Size: 1, Meta: Meta{{"k", Val{Kind: VInt, I: int32(i)}}}}, {Name: "c", URI: "d"}}
		r.Meta = Meta{{"x", Val{Kind: VF32, F: 1.5}}, {"y", Val{Kind: VInt, I: 2}}}
	case 5:
		r.Meta = Meta{{"x", Val{Kind: VInt, I: 1}}, {"y", Val{Kind: VInt, I: 2}}, {"z", Val{Kind: VInt, I: int32(i)}}}
		r.Colls = []Coll{oneColl(Event, 0), oneColl(Event, 3), oneColl(Pos, 1)}
	case 6:
		r.ID, r.Name = "", ""
	}
}

// node is a place in a decoded document.
func places(x interface{}, path []interface{}, out *[][]interface{}) {
	*out = append(*out, append([]interface{}{}, path...))
	switch d := x.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(d))
		for k := range d {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			places(d[k], append(path, k), out)
		}
	case []interface{}:
		for i := range d {
			places(d[i], append(path, i), out)
		}
	}
}

// edited is the document with the place changed by f (nil result, false: removed).
func edited(x interface{}, path []interface{}, f func(interface{}) (interface{}, bool)) (interface{}, bool) {
	if len(path) == 0 {
		return f(x)
	}
	switch d := x.(type) {
	case map[string]interface{}:
		n := map[string]interface{}{}
		for k, v := range d {
			if k == path[0] {
				if v, keep := edited(v, path[1:], f); keep {
					n[k] = v
				}
			} else {
				n[k] = v
			}
		}
		return n, true
	case []interface{}:
		var n = []interface{}{}
		for i, v := range d {
			if i == path[0] {
				if v, keep := edited(v, path[1:], f); keep {
					n = append(n, v)
				}
			} else {
				n = append(n, v)
			}
		}
		return n, true
	}
	return x, true
}

func plainJSON(x interface{}) string {
	w := &jw{}
	switch d := x.(type) {
	case nil:
		return "null"
	case string:
		return w.str(d)
	case bool:
		return fmt.Sprint(d)
	case float64:
		return w.num(d)
	case []interface{}:
		var o []string
		for _, e := range d {
			o = append(o, plainJSON(e))
		}
		return w.arr(o)
	case map[string]interface{}:
		var ks []string
		for k := range d {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var kv []string
		for _, k := range ks {
			kv = append(kv, k, plainJSON(d[k]))
		}
		return w.obj(kv...)
	}
	panic("plainJSON")
}

// importBase is a document with every part.
func importBase() *Rec {
	ev := Coll{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "go", Meta: Meta{{"a", Val{Kind: VStr, S: "b"}}}}, {T: 2, Name: "stop"}}}
	en := Coll{Kind: Enum, Name: "s", Members: []string{"on", "off"}, Caps: []Cap{{T: 1, I: 0}, {T: 2, I: 1}, {T: 3, I: 0}}}
	po := Coll{Kind: Pos, Name: "p", Caps: []Cap{{T: 1, V: [3]float64{1, 2, 3}}, {T: 2.5, V: [3]float64{-1, 0.5, 1e9}}}}
	eu := Coll{Kind: Euler, Name: "r", Caps: []Cap{{T: 1, V: [3]float64{10, 20, 359.5}}}}
	return &Rec{ID: "i", Name: "n", Meta: Meta{{"k", arr(VInt, 2)}, {"v", Val{Kind: VVec2, V: [3]float64{1, 2}}}, {"o", Val{Kind: VBlock, M: Meta{{"t", Val{Kind: VTime, T: 1600000000000000}}}}}},
		Colls: []Coll{po, ev, en, eu}, Refs: []Ref{{Name: "f", URI: "u", Size: 12, Meta: Meta{{"z", Val{Kind: VBool, B: true}}}}},
		Recs: []*Rec{{ID: "i2", Name: "n2", Colls: []Coll{en}, Recs: []*Rec{{ID: "i3", Name: "n3", Meta: Meta{{"q", raw(VBoolArr, 2)}}}}}, {ID: "i4", Name: "n4", Refs: []Ref{{Name: "g", URI: "h", Size: 0}}}}}
}

func replacements() []func(interface{}) (interface{}, bool) {
	to := func(x interface{}) func(interface{}) (interface{}, bool) {
		return func(interface{}) (interface{}, bool) { return x, true }
	}
	m := func(kv ...interface{}) map[string]interface{} {
		o := map[string]interface{}{}
		for i := 0; i+1 < len(kv); i += 2 {
			o[kv[i].(string)] = kv[i+1]
		}
		return o
	}
	return []func(interface{}) (interface{}, bool){
		func(interface{}) (interface{}, bool) { return nil, false },
		to(nil), to(true), to(""), to("text"), to("5"), to("-0.5"), to("1e3"), to("true"), to(0.0), to(1.5), to(-3.0), to(1e300), to([]interface{}{}), to(m()), to([]interface{}{nil}), to([]interface{}{1.0}), to([]interface{}{m()}),
		to(m("x", 1.0, "y", 2.0)), to(m("x", 1.0, "y", 2.0, "z", 3.0)), to(m("name", "nn")), to(m("id", "ii", "name", "nn")), to(m("x", "1")),
		func(x interface{}) (interface{}, bool) { return []interface{}{x}, true },
		func(x interface{}) (interface{}, bool) { return []interface{}{x, x}, true },
		func(x interface{}) (interface{}, bool) { return m("data", x), true },
		to("recolude.float"), to("recolude.event"), to("recolude.enum"), to("recolude.position"), to("recolude.Position"),
	}
}

// importable leaves out what a document can not hold.
func importable(m *Rec) *Rec {
	m = noFloats(m)
	for _, n := range nodes(m) {
		n.Bins = nil
		for i := range n.Refs {
			if n.Refs[i].Size > 1<<53 {
				n.Refs[i].Size = 1 << 53
			}
		}
		for i, k := range n.Colls {
			if k.Kind != Enum {
				continue
			}
			var in []Cap // a document names the members
			for _, x := range k.Caps {
				if int(x.I) < len(k.Members) {
					in = append(in, x)
				}
			}
			n.Colls[i].Caps = in
		}
	}
	return m
}

func init() {
	reg(&eng.Check{
		ID: "C21", Level: "model_checking",
		Assumptions: []string{"reference sizes are at most 2^53, the integers JSON numbers carry exactly"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "documents of all recordings that differ from a rich base in at most D details, in 3 styles", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				style := c.Free(jsonStyles)
				g := FullGen(c)
				g.Finite, g.Text, g.Big = true, true, false
				g.Kinds = []string{Pos, Euler, Event, Enum}
				m := g.Rec()
				for _, n := range nodes(m) {
					n.Bins = nil
					for i := range n.Refs {
						if n.Refs[i].Size > 1<<53 {
							n.Refs[i].Size = 1 << 53
						}
					}
				}
				c.Describe(m.String)
				importDoc(c, writeDoc(m, style), m)
			}},
			{Name: "trees", Bound: "documents of all trees of at most 3 (thorough 4) recordings with 7 sets of parts, in 3 styles", Body: func(c *eng.Ctx) {
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				style := c.Free(jsonStyles)
				m := (&Gen{c: c}).SmallTree(n, func(r *Rec, i int) { importParts(c, r, i) })
				c.Describe(m.String)
				importDoc(c, writeDoc(m, style), m)
			}},
			depth(2, sizesPhase(4999, 70000, " (without floats and binaries), in 3 styles", func(c *eng.Ctx, m *Rec) {
				m = importable(m)
				importDoc(c, writeDoc(m, c.Free(jsonStyles)), m)
			})),
			hugePhase(" (without floats and binaries)", func(c *eng.Ctx, m *Rec) {
				m = importable(m)
				importDoc(c, writeDoc(m, 0), m)
			}),
			{Name: "bare", Bound: "documents of every product of empty or short parts, in 3 styles", Body: func(c *eng.Ctx) {
				style := c.Free(jsonStyles)
				m := noFloats(bare(c))
				for _, n := range nodes(m) {
					n.Bins = nil
					for i, k := range n.Colls {
						if k.Kind == Enum && len(k.Caps) > len(k.Members) {
							n.Colls[i].Caps = k.Caps[:len(k.Members)]
						}
					}
				}
				c.Describe(m.String)
				importDoc(c, writeDoc(m, style), m)
			}},
			{Name: "enums", Bound: "all sequences of at most 6 (thorough 7) captures over 4 members, in two enum collections side by side", Body: func(c *eng.Ctx) {
				n := 6
				if c.Tier == "thorough" {
					n = 7
				}
				x := Coll{Kind: Enum, Name: "e", Members: []string{"a", "", "c\"", "d"}}
				for n = c.Free(n + 1); n > 0; n-- {
					x.Caps = append(x.Caps, Cap{T: float64(n), I: c.Free(4)})
				}
				y := x
				y.Name, y.Members = "f", []string{"d", "z", "a", ""}
				m := &Rec{ID: "i", Name: "n", Colls: []Coll{x, y}}
				c.Describe(m.String)
				importDoc(c, writeDoc(m, 0), m)
			}},
			{Name: "numbers", Bound: "all triples of coordinates over 16 numbers, as positions and rotations, and all pairs of times", Body: func(c *eng.Ctx) {
				ns := []float64{0, 1, -1, 0.1, -2.5, 1e6, 1e-9, 1e21, 1e300, 5e-324, math.MaxFloat64, 123456789.123456789, 1 << 53, 360, -0.001, 16777217}
				var v [3]float64
				for i := range v {
					v[i] = ns[c.Free(len(ns))]
				}
				kind := []string{Pos, Euler}[c.Free(2)]
				m := &Rec{ID: "i", Name: "n", Colls: []Coll{{Kind: kind, Name: "c", Caps: []Cap{{T: v[2], V: v}, {T: v[0], V: [3]float64{v[2], v[0], v[1]}}}}, {Kind: Enum, Name: "e", Members: []string{"m"}, Caps: []Cap{{T: v[1]}}}, {Kind: Event, Name: "e", Caps: []Cap{{T: v[1], Name: "x"}}}}}
				c.Describe(m.String)
				importDoc(c, writeDoc(m, c.Free(2)), m)
			}},
			{Name: "metadata", Bound: "every metadata value of the menu in each of the 3 places that hold metadata, in 2 styles", Body: func(c *eng.Ctx) {
				vs := metaVals(true, true, true)
				md := Meta{{"v", vs[c.Free(len(vs))]}, {"w", Val{Kind: VInt, I: 1}}}
				m := &Rec{ID: "i", Name: "n", Recs: []*Rec{{ID: "j", Name: "o"}}}
				r := m
				if c.Free(2) == 1 {
					r = m.Recs[0]
				}
				switch c.Free(3) {
				case 0:
					r.Meta = md
				case 1:
					r.Refs = []Ref{{Name: "a", URI: "b", Size: 3, Meta: md}}
				case 2:
					r.Colls = []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "x"}, {T: 2, Name: "y", Meta: md}, {T: 3, Name: "x"}}}}
				}
				c.Describe(m.String)
				importDoc(c, writeDoc(m, c.Free(2)), m)
			}},
			{Name: "sizes", Bound: "reference sizes at and around every power of two up to 2^53, and 20 spellings of sizes and other numbers", Body: func(c *eng.Ctx) {
				var t string
				if c.Free(2) == 0 {
					n := uint64(1) << uint(c.Free(54))
					if n < 1<<53 {
						n += uint64(c.Free(3)) - 1
					}
					t = fmt.Sprint(n)
				} else {
					l := []string{"1.0", "1e3", "1E+3", "1.5", "-1", "-0", "0.5", "1e-3", "01", "+1", "1.", ".5", "0x10", "NaN", "Infinity", `"5"`, "1e400", "true", "[1]", "100e-2"}
					t = l[c.Free(len(l))]
				}
				doc := `{"id":"i","name":"n","references":[{"name":"a","uri":"b","size":` + t + `}],"collections":[{"name":"p","type":"recolude.position","captures":[{"time":1,"data":{"x":` + t + `,"y":2,"z":3}}]}]}`
				c.Describe(func() string { return doc })
				importDoc(c, []byte(doc), nil)
			}},
			{Name: "malformed", Bound: "a document with every part, with every place removed or replaced in each of 31 ways (thorough: every two places)", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				x, err := strictJSON(writeDoc(importBase(), 0))
				if err != nil {
					panic(err)
				}
				for c.Dev(2) == 1 {
					var ps [][]interface{}
					places(x, nil, &ps)
					rs := replacements()
					p := ps[c.Free(len(ps))]
					y, keep := edited(x, p, rs[c.Free(len(rs))])
					if !keep {
						break
					}
					x = y
				}
				doc := plainJSON(x)
				c.Describe(func() string { return doc })
				importDoc(c, []byte(doc), nil)
			}},
			{Name: "bytes", Bound: "every prefix, every deletion of one byte and every replacement of one byte by 12 others of a document", Body: func(c *eng.Ctx) {
				doc := string(writeDoc(importBase(), 0))
				i := c.Free(len(doc))
				switch k := c.Free(14); k {
				case 0:
					doc = doc[:i]
				case 1:
					doc = doc[:i] + doc[i+1:]
				default:
					doc = doc[:i] + string("\"\\{}[],:0 .\x00"[k-2]) + doc[i+1:]
				}
				c.Describe(func() string { return doc })
				importDoc(c, []byte(doc), nil)
			}},
			{Name: "deep", Bound: "documents nested 1 to 20000 deep in recordings, metadata objects and metadata arrays", Body: func(c *eng.Ctx) {
				d := []int{1, 10, 100, 1000, 3000, 4990, 9990, 10000, 20000}[c.Free(9)]
				way := c.Free(4)
				var doc string
				switch way {
				case 0:
					doc = strings.Repeat(`{"id":"i","name":"n","recordings":[`, d) + strings.Repeat(`]}`, d)
				case 1:
					doc = strings.Repeat(`{"id":"i","name":"n","recordings":[`, d) + `{"id":"i","name":"n"}` + strings.Repeat(`]}`, d)
				case 2:
					doc = `{"id":"i","name":"n","metadata":` + strings.Repeat(`{"k":`, d) + "1" + strings.Repeat("}", d) + "}"
				case 3:
					doc = `{"id":"i","name":"n","metadata":{"k":` + strings.Repeat(`[`, d) + strings.Repeat("]", d) + "}}"
				}
				c.Describe(func() string { return fmt.Sprintf("%d deep, way %d", d, way) })
				var rec format.Recording
				var err error
				c.NoPanic("importing JSON", func() { rec, err = parsing.FromJSON([]byte(doc)) })
				if way == 3 && d > 1 && err == nil {
					c.Fail("an array of arrays is imported")
				}
				if way < 3 && d <= 3000 {
					if err != nil {
						c.Fail("not imported: %v", err)
					}
					want := d
					if way == 1 {
						want++
					}
					n := 0
					if way == 2 {
						m, e := FromBlock(rec.Metadata())
						if e != nil {
							c.Fail("%v", e)
						}
						for want = d; len(m) == 1; n++ {
							m = m[0].V.M
						}
					} else {
						for r := rec; r != nil; n++ {
							s := r.Recordings()
							r = nil
							if len(s) > 0 {
								r = s[0]
							}
						}
					}
					if n != want {
						c.Fail("%d levels imported", n)
					}
				}
				c.State(d, way, err == nil)
			}},
		},
	})
}
