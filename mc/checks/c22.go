package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// loneKeys fails on an object that has a key twice, which no reader can use.
func loneKeys(d *json.Decoder) error {
	t, err := d.Token()
	if err != nil {
		return err
	}
	if t == json.Delim('{') {
		seen := map[string]bool{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return err
			}
			if seen[k.(string)] {
				return fmt.Errorf("key %q is there twice", k)
			}
			seen[k.(string)] = true
			if err := loneKeys(d); err != nil {
				return err
			}
		}
		_, err = d.Token()
	} else if t == json.Delim('[') {
		for d.More() {
			if err := loneKeys(d); err != nil {
				return err
			}
		}
		_, err = d.Token()
	}
	return err
}

func utf8Text(s string) string { return string([]rune(s)) }

// exported compares a decoded document with a recording.
func exported(path string, x interface{}, r *Rec) error {
	d, ok := x.(map[string]interface{})
	if !ok {
		return fmt.Errorf("%s is not an object", path)
	}
	str := func(d map[string]interface{}, k, want string) error {
		if s, ok := d[k].(string); !ok || s != utf8Text(want) {
			return fmt.Errorf("%s: %s is %q, want %q", path, k, d[k], want)
		}
		return nil
	}
	meta := func(what string, x interface{}, m Meta) error {
		o, ok := x.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: %s is not an object", path, what)
		}
		g, err := jsonMeta(o)
		if err != nil {
			return fmt.Errorf("%s: %s: %v", path, what, err)
		}
		if saidBlock(g) != saidBlock(m) {
			return fmt.Errorf("%s: %s says %s, want %s", path, what, saidBlock(g), saidBlock(m))
		}
		return nil
	}
	if err := str(d, "id", r.ID); err != nil {
		return err
	}
	if err := str(d, "name", r.Name); err != nil {
		return err
	}
	if err := meta("metadata", d["metadata"], r.Meta); err != nil {
		return err
	}
	cs, ok := d["collections"].([]interface{})
	if !ok || len(cs) != len(r.Colls) {
		return fmt.Errorf("%s: %d collections, want %d", path, len(cs), len(r.Colls))
	}
	for i, k := range r.Colls {
		o, ok := cs[i].(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s: collection %d is not an object", path, i)
		}
		if err := str(o, "name", k.Name); err != nil {
			return err
		}
		if err := str(o, "signature", k.Kind); err != nil {
			return err
		}
		if n, ok := o["count"].(float64); !ok || int(n) != len(k.Caps) {
			return fmt.Errorf("%s: collection %d has count %v, want %d", path, i, o["count"], len(k.Caps))
		}
		if k.Kind != Event {
			continue
		}
		es, ok := o["captures"].([]interface{})
		if !ok || len(es) != len(k.Caps) {
			return fmt.Errorf("%s: collection %d lists %d captures, want %d", path, i, len(es), len(k.Caps))
		}
		for j, p := range k.Caps {
			e, ok := es[j].(map[string]interface{})
			if !ok {
				return fmt.Errorf("%s: capture %d is not an object", path, j)
			}
			if t, ok := e["time"].(float64); !ok || !(math.Abs(t-p.T) <= 5.001e-7+1e-15*math.Abs(p.T)) {
				return fmt.Errorf("%s: capture %d has time %v, want %v", path, j, e["time"], p.T)
			}
			if err := str(e, "name", p.Name); err != nil {
				return err
			}
			if err := meta(fmt.Sprintf("data of capture %d", j), e["data"], p.Meta); err != nil {
				return err
			}
		}
	}
	rs, ok := d["recordings"].([]interface{})
	if !ok || len(rs) != len(r.Recs) {
		return fmt.Errorf("%s: %d recordings, want %d", path, len(rs), len(r.Recs))
	}
	for i, s := range r.Recs {
		if err := exported(fmt.Sprintf("%s/%d", path, i), rs[i], s); err != nil {
			return err
		}
	}
	return nil
}

// toJSON runs the command on a file, from its input or by name.
func toJSON(c *eng.Ctx, file []byte, out io.Writer, named bool) error {
	if !named {
		return app(c, bytes.NewReader(file), out, "to-json")
	}
	dir, done := scratch(c)
	defer done()
	return app(c, strings.NewReader(""), out, "to-json", "--file", put(dir, "f.rap", file))
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

func badVal(v Val) bool {
	if v.Kind == VF32 && !finite(float64(v.F)) {
		return true
	}
	if v.Kind == VVec2 || v.Kind == VVec3 {
		for _, x := range v.V {
			if !finite(x) {
				return true
			}
		}
	}
	for _, e := range v.Arr {
		if badVal(e) {
			return true
		}
	}
	return badMeta(v.M)
}

func badMeta(m Meta) bool {
	for _, kv := range m {
		if badVal(kv.V) {
			return true
		}
	}
	return false
}

// inexpressible: some printed number is not finite (must) or some number is
// not finite (may).
func inexpressible(r *Rec) (must, may bool) {
	for _, n := range nodes(r) {
		must = must || badMeta(n.Meta)
		for _, k := range n.Refs {
			may = may || badMeta(k.Meta)
		}
		for _, k := range n.Bins {
			may = may || badMeta(k.Meta)
		}
		for _, k := range n.Colls {
			for _, p := range k.Caps {
				if k.Kind == Event && (!finite(p.T) || badMeta(p.Meta)) {
					must = true
				}
				may = may || !finite(p.T) || !finite(p.V[0]) || !finite(p.V[1]) || !finite(p.V[2])
			}
		}
	}
	return must, may
}

// oddTime: a time no RFC 3339 text can say.
func oddTime(m Meta) bool {
	for _, kv := range m {
		if v := kv.V; v.Kind == VTime && (v.T < -62135596800000000 || v.T > 253402214400000000) || oddTime(v.M) {
			return true
		}
	}
	return false
}

// export checks the export of m, stored by tech.
func export(c *eng.Ctx, m *Rec, t Tech, named bool) {
	file, _ := MustWrite(c, m.Real(), t)
	var out bytes.Buffer
	err := toJSON(c, file, &out, named)
	c.State(m.Hash(), named, err == nil)
	must, may := inexpressible(m)
	if err != nil {
		if !must && !may {
			c.Fail("the export fails: %v", err)
		}
		return
	}
	if must {
		c.Fail("a number that is not finite is exported:\n%s", out.String())
	}
	checkExport(c, m, out.Bytes())
}

func checkExport(c *eng.Ctx, m *Rec, out []byte) {
	x, err := strictJSON(out)
	if err != nil {
		c.Fail("the export is %v:\n%s", err, out)
	}
	if err := loneKeys(json.NewDecoder(bytes.NewReader(out))); err != nil {
		c.Fail("the export is ambiguous: %v:\n%s", err, out)
	}
	if err := exported("root", x, m); err != nil {
		c.Fail("%v in:\n%s", err, out)
	}
}

func init() {
	utf8Metas := func(r *Rec) bool {
		for _, n := range nodes(r) {
			if oddTime(n.Meta) {
				return false
			}
			for _, k := range n.Colls {
				for _, p := range k.Caps {
					if oddTime(p.Meta) {
						return false
					}
				}
			}
		}
		return true
	}
	reg(&eng.Check{
		ID: "C22", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "details", Bound: "all recordings that differ from a rich base in at most D details (numbers that are not finite included), by name and from standard input", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				named := c.Free(2) == 1
				g := FullGen(c)
				g.Text, g.Big = true, false
				g.Kinds = []string{Pos, Euler, Event, Enum}
				m := g.Rec()
				if !utf8Metas(m) {
					c.Skip()
				}
				c.Describe(m.String)
				export(c, m, Tech{}, named)
			}},
			{Name: "trees", Bound: "all trees of at most 4 recordings with 7 sets of parts", Body: func(c *eng.Ctx) {
				m := (&Gen{c: c}).SmallTree(4, func(r *Rec, i int) { importParts(c, r, i) })
				c.Describe(m.String)
				export(c, m, Tech{Compress: true}, false)
			}},
			depth(2, sizesPhase(5000, 70000, " (without floats), by name or from standard input", func(c *eng.Ctx, m *Rec) {
				export(c, noFloats(m), Tech{}, c.Free(2) == 1)
			})),
			{Name: "bare", Bound: "every product of empty or short parts", Body: func(c *eng.Ctx) {
				m := noFloats(bare(c))
				c.Describe(m.String)
				export(c, m, Tech{}, false)
			}},
			{Name: "texts", Bound: "all strings of at most 3 (thorough 4) characters over 14 special ones, also inside longer texts of 3 lengths, in each of 7 places", Body: func(c *eng.Ctx) {
				al := []string{"0", "x", "\"", "\\", "\n", "\r\t", "\x00", "%", "<", "é", "\u2028", "\U0001F600", "\xff", "\x7f"}
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				s := ""
				for n = c.Free(n + 1); n > 0; n-- {
					s += al[c.Free(len(al))]
				}
				if pad := []int{0, 13, 50, 300}[c.Free(4)]; pad > 0 {
					if len(s) > 8 || strings.Count(s, "x") > 0 {
						c.Skip()
					}
					s = text(pad/2) + s + text(pad)
				}
				m := &Rec{ID: "i", Name: "n", Colls: []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "en", Meta: Meta{{"k", Val{Kind: VStr, S: "v"}}}}}}}, Recs: []*Rec{{ID: "i2", Name: "n2"}}}
				valid := !strings.Contains(s, "\xff")
				switch c.Free(7) {
				case 0:
					m.ID = s
				case 1:
					m.Name = s
				case 2:
					m.Colls[0].Name = s
				case 3:
					m.Colls[0].Caps[0].Name = s
				case 4:
					if valid {
						m.Colls[0].Caps[0].Meta[0] = KV{s, Val{Kind: VStr, S: s}}
					}
				case 5:
					if valid {
						m.Meta = Meta{{s, Val{Kind: VStr, S: s}}}
					}
				case 6:
					m.Recs[0].ID, m.Recs[0].Name = s, s
				}
				c.Describe(func() string { return fmt.Sprintf("%q", s) })
				export(c, m, Tech{}, false)
			}},
			{Name: "times", Bound: "event times at and next to every power of two and ten and every 6-decimal boundary of a list, both signs, and times that are not finite, at every position of up to 3 events in the root or a child", Body: func(c *eng.Ctx) {
				var t float64
				switch c.Free(4) {
				case 0:
					t = math.Pow(2, float64(c.Free(200)-60))
				case 1:
					t = math.Pow(10, float64(c.Free(331)-22))
				case 2:
					l := []float64{0, 0.0000005, 0.0000015, 0.4999995, 0.9999999, 1.0000005, 123456.7890125, 99.9999995, 1e15 + 0.5, 0.1, 1.0 / 3}
					t = l[c.Free(len(l))]
				case 3:
					t = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324}[c.Free(5)]
				}
				if c.Free(2) == 1 {
					t = -t
				}
				k := Coll{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "a"}, {T: 2, Name: "b"}, {T: 3, Name: "c"}}}
				k.Caps[c.Free(3)].T = t
				m := &Rec{ID: "i", Name: "n", Recs: []*Rec{{ID: "c", Name: "d"}}}
				if c.Free(2) == 0 {
					m.Colls = []Coll{k, oneColl(Pos, 1)}
				} else {
					m.Recs[0].Colls = []Coll{oneColl(Event, 1), k}
				}
				c.Describe(func() string { return fmt.Sprint(t) })
				export(c, m, Tech{}, false)
			}},
			{Name: "not finite", Bound: "every number that is not finite in every kind of value, at each place of metadata of a recording of 3 levels", Body: func(c *eng.Ctx) {
				x := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.Free(3)]
				f := Val{Kind: VF32, F: float32(x)}
				v := []Val{f, {Kind: VVec2, V: [3]float64{x, 1}}, {Kind: VVec2, V: [3]float64{1, x}}, {Kind: VVec3, V: [3]float64{1, 2, x}}, {Kind: VArr, Elem: VF32, Arr: []Val{{Kind: VF32, F: 1}, f}},
					{Kind: VBlock, M: Meta{{"in", f}}}, {Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock}, {Kind: VBlock, M: Meta{{"in", f}}}}}}[c.Free(7)]
				m := &Rec{ID: "i", Name: "n", Recs: []*Rec{{ID: "c", Name: "d", Recs: []*Rec{{ID: "g", Name: "h"}}}, {ID: "z", Name: "z"}}}
				n := nodes(m)[c.Free(4)]
				if c.Free(2) == 0 {
					n.Meta = Meta{{"a", Val{Kind: VInt, I: 1}}, {"v", v}}
				} else {
					n.Colls = []Coll{oneColl(Event, 2), {Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "a"}, {T: 2, Name: "b", Meta: Meta{{"v", v}}}, {T: 3, Name: "c"}}}}
				}
				c.Describe(m.String)
				export(c, m, Tech{}, false)
			}},
			{Name: "metadata", Bound: "every value of the menu, as metadata of the root, of a grandchild and as data of an event", Body: func(c *eng.Ctx) {
				vs := metaVals(true, true, true)
				md := Meta{{"v", vs[c.Free(len(vs))]}, {"w", Val{Kind: VInt, I: 1}}}
				if c.Free(2) == 1 {
					md = md[:1]
				}
				m := &Rec{ID: "i", Name: "n", Recs: []*Rec{{ID: "j", Name: "o", Recs: []*Rec{{ID: "k", Name: "p"}}}}}
				switch c.Free(3) {
				case 0:
					m.Meta = md
				case 1:
					m.Recs[0].Recs[0].Meta = md
				case 2:
					m.Colls = []Coll{{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "x"}, {T: 2, Name: "y", Meta: md}}}}
				}
				c.Describe(m.String)
				export(c, m, Tech{}, c.Free(2) == 1)
			}},
			{Name: "counts", Bound: "collections of every kind with 0 to 40 and around 128, 256 and 1000 captures", Body: func(c *eng.Ctx) {
				n := c.Free(47)
				if n > 40 {
					n = []int{127, 128, 255, 256, 300, 1000}[n-41]
				}
				kind := []string{Pos, Euler, Event, Enum}[c.Free(4)]
				m := &Rec{ID: "i", Name: "n", Colls: []Coll{oneColl(kind, n), oneColl(Event, 1), oneColl(kind, n/2)}}
				c.Describe(func() string { return kind + " " + strconv.Itoa(n) })
				export(c, m, Tech{}, false)
			}},
			{Name: "failing output", Bound: "4 recordings, the output failing at every write or after every byte count, for good or once, having taken none, half, most or all of the bytes", Body: func(c *eng.Ctx) {
				ms := []*Rec{{ID: "i", Name: "n"}, importBase(), {ID: "i", Colls: []Coll{oneColl(Event, 3)}, Recs: []*Rec{{ID: "a"}, {ID: "b", Colls: []Coll{oneColl(Pos, 1)}}}}, {ID: "d", Recs: []*Rec{{Recs: []*Rec{{Recs: []*Rec{{}}}}}}}}
				i := c.Free(len(ms))
				file, _ := MustWrite(c, ms[i].Real(), Tech{})
				var good bytes.Buffer
				if err := toJSON(c, file, &good, false); err != nil {
					c.Fail("the export fails: %v", err)
				}
				checkExport(c, ms[i], good.Bytes())
				cnt := &badDest{call: -1, budget: -1}
				toJSON(c, file, cnt, false)
				d := &badDest{call: -1, budget: -1}
				if c.Free(2) == 0 {
					d.call, d.partial = c.Free(cnt.calls), c.Free(4)
				} else {
					d.budget = c.Free(good.Len())
				}
				d.once = c.Free(2) == 1
				c.Describe(func() string {
					return fmt.Sprintf("recording %d, output fails at write %d (partial %d) or after %d bytes, once=%v", i, d.call, d.partial, d.budget, d.once)
				})
				err := toJSON(c, file, d, false)
				c.State(i, d.call, d.budget, d.partial, d.once)
				if d.failed && err == nil {
					c.Fail("the output failed and the export reports success")
				}
			}},
			{Name: "loaded", Bound: "every file of both families without float streams", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				rec, _, err := loadAll(c, f.Raw)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				m := Complete(c, rec)
				for _, n := range nodes(m) {
					for _, k := range n.Colls {
						if k.Kind == Float {
							c.Skip()
						}
					}
				}
				if !utf8Metas(m) {
					c.Skip()
				}
				c.Describe(func() string { return f.Name })
				var out bytes.Buffer
				err = toJSON(c, f.Raw, &out, c.Free(2) == 1)
				must, may := inexpressible(m)
				if err != nil && !must && !may {
					c.Fail("the export fails: %v", err)
				}
				if err == nil {
					checkExport(c, m, out.Bytes())
				}
				c.State(f.Name, err == nil)
			}},
		},
	})
}
