package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// ---- what a value says once it has been through JSON

func spellsHex(s string) ([]byte, bool) {
	if !strings.HasPrefix(s, "0x") {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])
	return b, err == nil
}

func spellsTime(s string) (int64, bool) {
	t, err := time.Parse(time.RFC3339Nano, s)
	return t.UnixMicro(), err == nil
}

func num32(f float32) float64 {
	v, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'g', -1, 32), 64)
	return v
}

func numText(v float64) string {
	if v == 0 {
		v = 0
	}
	return "n" + strconv.FormatFloat(v, 'g', -1, 64)
}

// numOf is the number a value holds.
func numOf(v Val) (float64, bool) {
	switch v.Kind {
	case VInt:
		return float64(v.I), true
	case VF32:
		return num32(v.F), true
	}
	return 0, false
}

// said is a canonical text of what JSON can keep of a value: numbers by
// value, bytes and times however they are spelled, {x,y(,z)} as vectors.
func said(v Val) string {
	if n, ok := numOf(v); ok {
		return numText(n)
	}
	switch v.Kind {
	case VStr:
		if b, ok := spellsHex(v.S); ok {
			return "b" + hex.EncodeToString(b)
		}
		if t, ok := spellsTime(v.S); ok {
			return fmt.Sprint("t", t)
		}
		return fmt.Sprintf("s%q", v.S)
	case VBool:
		return fmt.Sprint(v.B)
	case VByte:
		return "b" + hex.EncodeToString([]byte{v.By})
	case VBytes:
		return "b" + hex.EncodeToString(v.Raw)
	case VTime:
		return fmt.Sprint("t", v.T)
	case VVec2:
		return "v(" + numText(v.V[0]) + "," + numText(v.V[1]) + ")"
	case VVec3:
		return "v(" + numText(v.V[0]) + "," + numText(v.V[1]) + "," + numText(v.V[2]) + ")"
	case VBlock:
		vec := make([]string, 3)
		for _, kv := range v.M {
			if i := strings.Index("xyz", kv.K); len(kv.K) == 1 && i >= 0 {
				if n, ok := numOf(kv.V); ok {
					vec[i] = numText(n)
				}
			}
		}
		if len(v.M) == 2 && vec[0] != "" && vec[1] != "" {
			return "v(" + vec[0] + "," + vec[1] + ")"
		}
		if len(v.M) == 3 && vec[0] != "" && vec[1] != "" && vec[2] != "" {
			return "v(" + strings.Join(vec, ",") + ")"
		}
		return saidBlock(v.M)
	case VBoolArr:
		var o []string
		for _, b := range v.Raw {
			o = append(o, fmt.Sprint(b&1 == 1))
		}
		return "[" + strings.Join(o, " ") + "]"
	case VArr:
		return saidArr(v.Arr)
	}
	return "?"
}

func saidArr(a []Val) string {
	if len(a) == 0 {
		return "[]"
	}
	if a[0].Kind == VStr {
		bytes1, times := true, true
		var all []byte
		for _, e := range a {
			b, ok := spellsHex(e.S)
			bytes1 = bytes1 && ok && len(b) == 1
			if bytes1 {
				all = append(all, b...)
			}
			_, ok = spellsTime(e.S)
			times = times && ok
		}
		if bytes1 {
			return "b" + hex.EncodeToString(all)
		}
		if !times {
			var o []string
			for _, e := range a {
				o = append(o, fmt.Sprintf("s%q", e.S))
			}
			return "[" + strings.Join(o, " ") + "]"
		}
	}
	var o []string
	for _, e := range a {
		o = append(o, said(e))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func saidBlock(m Meta) string {
	var o []string
	for _, kv := range m {
		o = append(o, fmt.Sprintf("%q:%s", kv.K, said(kv.V)))
	}
	sort.Strings(o)
	return "{" + strings.Join(o, " ") + "}"
}

// jsonVal is the value a decoded JSON document stands for, or why none does.
func jsonVal(x interface{}) (Val, error) {
	switch d := x.(type) {
	case string:
		return Val{Kind: VStr, S: d}, nil
	case bool:
		return Val{Kind: VBool, B: d}, nil
	case float64:
		if d == math.Trunc(d) && math.Abs(d) < 1<<31 || d == math.MinInt32 {
			return Val{Kind: VInt, I: int32(d)}, nil
		}
		if math.IsInf(float64(float32(d)), 0) {
			return Val{}, fmt.Errorf("number too large")
		}
		return Val{Kind: VF32, F: float32(d)}, nil
	case map[string]interface{}:
		vec := func(ks ...string) (v [3]float64, ok bool) {
			ok = len(ks) == len(d)
			for i, k := range ks {
				n, is := d[k].(float64)
				v[i] = n
				ok = ok && is
			}
			return
		}
		if v, ok := vec("x", "y"); ok {
			return Val{Kind: VVec2, V: v}, nil
		}
		if v, ok := vec("x", "y", "z"); ok {
			return Val{Kind: VVec3, V: v}, nil
		}
		m, err := jsonMeta(d)
		return Val{Kind: VBlock, M: m}, err
	case []interface{}:
		var a []Val
		nums, same := true, true
		kind := func(x interface{}) string { return fmt.Sprintf("%T", x) }
		for _, e := range d {
			v, err := jsonVal(e)
			if err != nil {
				return v, err
			}
			if v.Kind == VArr || v.Kind == VBoolArr || kind(e) != kind(d[0]) {
				return v, fmt.Errorf("not a uniform array of values")
			}
			nums = nums && (v.Kind == VF32 || v.Kind == VInt)
			same = same && (len(a) == 0 || a[0].Kind == v.Kind)
			a = append(a, v)
		}
		if len(a) > 0 && a[0].Kind == VBool {
			v := Val{Kind: VBoolArr}
			for _, e := range a {
				b := byte(0)
				if e.B {
					b = 1
				}
				v.Raw = append(v.Raw, b)
			}
			return v, nil
		}
		if nums && !same {
			for i, e := range d {
				a[i] = Val{Kind: VF32, F: float32(e.(float64))}
			}
		}
		if !same {
			for i, e := range d {
				if o, ok := e.(map[string]interface{}); ok { // objects that are not all vectors of one size
					m, err := jsonMeta(o)
					if err != nil {
						return Val{}, err
					}
					a[i] = Val{Kind: VBlock, M: m}
				}
			}
		}
		return Val{Kind: VArr, Arr: a}, nil
	}
	return Val{}, fmt.Errorf("metadata cannot hold %v", x)
}

func jsonMeta(d map[string]interface{}) (Meta, error) {
	var m Meta
	for k, e := range d {
		v, err := jsonVal(e)
		if err != nil {
			return nil, err
		}
		m = append(m, KV{k, v})
	}
	return m, nil
}

// strictJSON decodes a document that must be the only content.
func strictJSON(b []byte) (interface{}, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	var x interface{}
	err := d.Decode(&x)
	return x, err
}

// fromJSONBlock converts text to a block with the library.
func fromJSONBlock(c *eng.Ctx, doc []byte) (Meta, error) {
	mp := metadata.NewMetadataProperty(metadata.EmptyBlock())
	var err error
	c.NoPanic("reading metadata from JSON", func() { err = mp.UnmarshalJSON(doc) })
	mp2, err2 := metadata.MetadataProperty{}, error(nil)
	c.NoPanic("reading metadata from JSON", func() { mp2, err2 = metadata.UnmarshalNewMetadataProperty(doc) })
	if (err == nil) != (err2 == nil) {
		c.Fail("reading metadata from JSON gives %v one way and %v another", err, err2)
	}
	if err != nil {
		return nil, err
	}
	m, e := FromBlock(mp.Block())
	if e != nil {
		c.Fail("the block made from %s is corrupt: %v", doc, e)
	}
	m2, e := FromBlock(mp2.Block())
	if e != nil || saidBlock(m) != saidBlock(m2) {
		c.Fail("two ways to read %s give %s and %s", doc, saidBlock(m), saidBlock(m2))
	}
	// it is a block that can be stored
	var b bytes.Buffer
	if _, e := metadata.WriteProprty(&b, mp); e != nil {
		c.Fail("the block made from %s cannot be stored: %v", doc, e)
	}
	back, e := metadata.ReadProperty(&b)
	if e != nil {
		c.Fail("the block made from %s cannot be read back: %v", doc, e)
	}
	v, e := FromProp(back)
	if e != nil || v.Kind != VBlock || saidBlock(v.M) != saidBlock(m) {
		c.Fail("the block made from %s is stored as %v (%v)", doc, v, e)
	}
	return m, nil
}

// viaJSON checks a block's way to JSON and back.
func viaJSON(c *eng.Ctx, m Meta) { viaJSONReal(c, m, m.Real()) }

func viaJSONReal(c *eng.Ctx, m Meta, real metadata.Block) {
	var doc []byte
	var err error
	c.NoPanic("converting metadata to JSON", func() { doc, err = metadata.NewMetadataProperty(real).MarshalJSON() })
	if err != nil {
		c.Fail("metadata is not converted to JSON: %v", err)
	}
	x, err := strictJSON(doc)
	if err != nil {
		c.Fail("metadata is converted to %q: %v", doc, err)
	}
	d, ok := x.(map[string]interface{})
	if !ok {
		c.Fail("metadata is converted to %q, not an object", doc)
	}
	// the document itself says it
	jm, err := jsonMeta(d)
	if err != nil {
		c.Fail("metadata is converted to %s: %v", doc, err)
	}
	if w, g := saidBlock(m), saidBlock(jm); w != g {
		c.Fail("metadata %s is converted to %s which says %s", w, doc, g)
	}
	got, err := fromJSONBlock(c, doc)
	if err != nil {
		c.Fail("metadata converted to %s is not converted back: %v", doc, err)
	}
	if w, g := saidBlock(m), saidBlock(got); w != g {
		c.Fail("metadata %s came back from JSON as %s (by %s)", w, g, doc)
	}
	after, err := FromBlock(real)
	if err != nil {
		c.Fail("converting broke the block: %v", err)
	}
	if d := DiffMeta("", m, after); d != "" {
		c.Fail("converting changed the block: %s", d)
	}
	c.State(saidBlock(m))
}

// jdocs builds every JSON value of at most a depth over small menus.
type jdoc struct {
	text string
}

func jsonText(c *eng.Ctx, depth, width int) string {
	atoms := []string{`1`, `-2.5`, `"s"`, `true`, `null`, `"0x4a"`, `{}`, `[]`}
	k := len(atoms)
	if depth > 0 {
		k += 2
	}
	switch i := c.Free(k); {
	case i < len(atoms):
		return atoms[i]
	case i == len(atoms):
		n := 1 + c.Free(width)
		var o []string
		for j := 0; j < n; j++ {
			o = append(o, jsonText(c, depth-1, width))
		}
		return "[" + strings.Join(o, ",") + "]"
	default:
		n := 1 + c.Free(width)
		keys := []string{"x", "y", "z"}
		if n < 3 && c.Free(2) == 1 {
			keys = []string{"k", "", ""}
		}
		var o []string
		for j := 0; j < n; j++ {
			o = append(o, fmt.Sprintf("%q:%s", keys[j], jsonText(c, depth-1, width)))
		}
		return "{" + strings.Join(o, ",") + "}"
	}
}

// jsonAtoms are single values whose spelling or size is special.
var jsonAtoms = []string{
	`0`, `-0`, `0.0`, `1`, `-1`, `1.0`, `1e0`, `10E2`, `999999`, `1000000`, `1e6`, `1000001`, `16777217`, `123456789`, `2147483647`, `2147483648`, `-2147483648`, `-2147483649`,
	`4294967296`, `9007199254740993`, `9223372036854775807`, `9223372036854775808`, `18446744073709551616`, `1e21`, `1e38`, `3.4028235e38`, `3.5e38`, `1e39`, `-1e39`, `1e308`, `1e309`,
	`0.1`, `1e-7`, `1e-45`, `1e-46`, `1e-400`, `2147483647.5`, `-0.5`,
	`""`, `" "`, `"a"`, `"\""`, `"\\"`, `"\\n"`, `"\n"`, `"\t\r\b\f"`, `"\u0000"`, `"\u001f"`, `"é"`, `"\u00e9"`, `"\ud83d\ude00"`, `"\ud800"`, `"</script>"`, `"\u2028"`, `"%d %s"`, `"\\u0041"`, `"true"`, `"null"`, `"12"`,
	`"0"`, `"0x"`, `"0x4"`, `"0x4a"`, `"0X4a"`, `"0x4A"`, `"0x4g"`, `"0xzz"`, `"0x4a4b"`, `"0x4a4"`, `"0x4a4b4c"`, `" 0x4a"`, `"0x4a "`, `"x4a"`, `"0x\"\""`, `"0x\n\n"`, `"0x\\\\"`, `"0xéé"`, `"0x0x"`,
	`"2021-01-02T03:04:05Z"`, `"2021-01-02T03:04:05.123456789+02:30"`, `"2021-01-02"`, `"2021-13-02T03:04:05Z"`, `"0000-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999Z"`, `"1500-01-01T00:00:00Z"`, `"2600-01-01T00:00:00Z"`, `"10000-01-01T00:00:00Z"`, `"2021-01-02T03:04:05"`, `"2021-01-02T03:04:05Z\n"`,
	`true`, `false`, `null`, `{}`, `[]`, `[[]]`, `[{}]`, `[null]`,
	`{"x":1,"y":2}`, `{"x":1,"y":2,"z":3}`, `{"x":1.5,"y":1e300}`, `{"x":1}`, `{"x":1,"z":3}`, `{"y":1,"z":3}`, `{"x":"1","y":2}`, `{"x":1,"y":null}`, `{"x":1,"y":true}`, `{"x":1,"y":[1]}`, `{"x":1,"y":2,"z":"3"}`, `{"x":1,"y":2,"z":null}`, `{"x":1,"y":2,"z":3,"w":4}`, `{"X":1,"Y":2}`, `{"x":1,"y":2,"w":3}`, `{"x":{"x":1,"y":2},"y":{"x":1,"y":2}}`,
}

func checkDoc(c *eng.Ctx, doc string) {
	var want Meta
	x, err := strictJSON([]byte(doc))
	if err == nil && x == nil {
		// by Go's convention decoding null may do nothing
		c.Skip()
	}
	if err == nil {
		d, ok := x.(map[string]interface{})
		if !ok {
			err = fmt.Errorf("not an object")
		} else {
			want, err = jsonMeta(d)
		}
	}
	got, gerr := fromJSONBlock(c, []byte(doc))
	switch {
	case err != nil && gerr == nil:
		c.Fail("%s cannot be a block (%v) and became %s", doc, err, saidBlock(got))
	case err == nil && gerr != nil:
		c.Fail("%s is a block and gives error %v", doc, gerr)
	case err == nil:
		if w, g := saidBlock(want), saidBlock(got); w != g {
			c.Fail("%s says %s and became %s", doc, w, g)
		}
	}
	c.State(doc, gerr == nil)
}

// readTyped reads JSON as a value of a given kind.
func readTyped(c *eng.Ctx, kind VK, doc []byte) (back metadata.Property, err error) {
	c.NoPanic("unmarshal", func() {
		switch kind {
		case VStr:
			var q metadata.StringProperty
			err = json.Unmarshal(doc, &q)
			back = q
		case VInt:
			back, err = metadata.UnmarshalNewInt32Property(doc)
		case VF32:
			back, err = metadata.UnmarshalNewFloat32Property(doc)
		case VBool:
			back, err = metadata.UnmarshalNewBoolProperty(doc)
		case VByte:
			back, err = metadata.UnmarshalNewByteProperty(doc)
		case VVec2:
			back, err = metadata.UnmarshalNewVector2Property(doc)
		case VVec3:
			back, err = metadata.UnmarshalNewVector3Property(doc)
		case VBlock:
			back, err = metadata.UnmarshalNewMetadataProperty(doc)
		case VTime:
			back, err = metadata.UnmarshalNewTimeProperty(doc)
		case VArr:
			q := metadata.NewStringArrayProperty([]string{"before"})
			err = json.Unmarshal(doc, &q)
			back = q
		case VBytes, VBoolArr:
			q := metadata.NewBinaryArrayProperty([]byte{9})
			err = json.Unmarshal(doc, &q)
			back = q
		}
	})
	return
}

// typedArr checks that arrays read on their own are those a block reads.
func typedArr(c *eng.Ctx, doc []byte) {
	m, err := fromJSONBlock(c, []byte(`{"k":`+string(doc)+`}`))
	n := 0
	for _, k := range []VK{VArr, VBytes} {
		got, gerr := readTyped(c, k, doc)
		if gerr != nil {
			continue
		}
		n++
		if err != nil {
			c.Fail("%s is not read in a block (%v) but on its own", doc, err)
		}
		g, err := FromProp(got)
		if err != nil || said(g) != said(m[0].V) {
			c.Fail("%s is %s in a block and %s on its own (%v)", doc, said(m[0].V), said(g), err)
		}
	}
	if err == nil && n == 0 && (m[0].V.Kind == VArr || m[0].V.Kind == VBoolArr || m[0].V.Kind == VBytes) {
		c.Fail("%s is the array %s in a block and not read on its own", doc, said(m[0].V))
	}
}

// typedDoc reads any value as one of a kind: what is read has to come back,
// and where the document says a value of that kind it has to be that value.
func typedDoc(c *eng.Ctx, kind VK, doc string) {
	x, xerr := strictJSON([]byte(doc))
	if xerr == nil && x == nil {
		c.Skip()
	}
	if kind == VArr {
		typedArr(c, []byte(doc))
		return
	}
	p, err := readTyped(c, kind, []byte(doc))
	want, werr := jsonVal(x)
	if xerr != nil || werr != nil {
		want = Val{Kind: -1}
	}
	if _, ok := spellsTime(want.S); want.Kind == VStr && kind == VTime && ok {
		want.Kind = VTime
		want.T, _ = spellsTime(want.S)
	}
	if b, ok := spellsHex(want.S); want.Kind == VStr && kind == VByte && ok && len(b) == 1 {
		want.Kind, want.By = VByte, b[0]
	}
	if kind == VF32 && want.Kind == VInt {
		want.Kind, want.F = VF32, float32(x.(float64))
	}
	if err != nil {
		if want.Kind == kind && !(kind == VInt && strings.ContainsAny(doc, ".eE")) {
			c.Fail("%s is not read as a value of kind %d: %v", doc, kind, err)
		}
		c.State(doc, kind)
		return
	}
	v, err := FromProp(p)
	if err != nil {
		c.Fail("%s read as kind %d is corrupt: %v", doc, kind, err)
	}
	if xerr == nil && !spells(kind, x) {
		c.Fail("%s is no JSON a value of kind %d can be and became %v", doc, kind, v)
	}
	if want.Kind == kind {
		a, b := said(want), said(v)
		if kind == VStr {
			a, b = want.S, v.S
		}
		if a != b {
			c.Fail("%s read as kind %d gives %v", doc, kind, v)
		}
	}
	var again []byte
	c.NoPanic("marshal", func() { again, err = json.Marshal(p) })
	if err != nil {
		c.Fail("%v read from %s is not converted to JSON: %v", v, doc, err)
	}
	p2, err := readTyped(c, kind, again)
	if err != nil {
		c.Fail("%v read from %s gives %s which is not read: %v", v, doc, again, err)
	}
	v2, err := FromProp(p2)
	if err != nil || said(v) != said(v2) {
		c.Fail("%v read from %s gives %s which is %v (%v)", v, doc, again, v2, err)
	}
	c.State(doc, kind, string(again))
}

// spells tells whether values of a kind are written as this sort of JSON.
func spells(kind VK, x interface{}) bool {
	switch x := x.(type) {
	case string:
		if kind == VTime {
			_, ok := spellsTime(x)
			return ok
		}
		if kind == VByte {
			b, err := hex.DecodeString(strings.TrimPrefix(x, "0x"))
			return err == nil && len(b) > 0
		}
		return kind == VStr || kind == VBytes || kind == VBoolArr
	case float64:
		return kind == VInt && x == math.Trunc(x) && math.Abs(x) <= 1<<31 || kind == VF32
	case bool:
		return kind == VBool
	case []interface{}:
		return kind == VArr || kind == VBytes || kind == VBoolArr
	}
	return kind == VVec2 || kind == VVec3 || kind == VBlock
}

// typed checks the per-kind helpers.
func typed(c *eng.Ctx, v Val) {
	p := v.Real()
	var doc []byte
	var err error
	c.NoPanic("marshal", func() { doc, err = json.Marshal(p) })
	if err != nil {
		c.Fail("%v is not converted to JSON: %v", v, err)
	}
	if v.Kind == VArr || v.Kind == VBoolArr || v.Kind == VBytes {
		typedArr(c, doc)
		return
	}
	back, err := readTyped(c, v.Kind, doc)
	if err != nil {
		c.Fail("%v is converted to %s, which is not converted back: %v", v, doc, err)
	}
	g, err := FromProp(back)
	if err != nil {
		c.Fail("%v came back corrupt: %v", v, err)
	}
	if v.Kind == VBlock {
		if said(v) != said(g) {
			c.Fail("%s came back as %s", said(v), said(g))
		}
	} else if d := DiffVal("", v, g); d != "" && !(v.Kind == VF32 && v.F == g.F) {
		c.Fail("%v converted to %s came back as %v: %s", v, doc, g, d)
	}
}

// unsetBlock is a block that was never filled, and what it holds.
func unsetBlock(c *eng.Ctx) (Meta, metadata.Block) {
	nb := metadata.NewBlock(nil)
	e := Val{Kind: VBlock}
	p := metadata.NewMetadataProperty(nb)
	wrap := func(p metadata.Property) metadata.Block {
		return metadata.NewBlock(map[string]metadata.Property{"k": p})
	}
	switch c.Free(4) {
	case 1:
		return Meta{{"k", e}}, wrap(p)
	case 2:
		return Meta{{"k", Val{Kind: VArr, Elem: VBlock, Arr: []Val{e, e}}}}, wrap(metadata.NewMetadataArrayProperty([]metadata.Block{nb, metadata.Block{}}))
	case 3:
		return Meta{{"k", Val{Kind: VBlock, M: Meta{{"k", e}}}}}, wrap(metadata.NewMetadataProperty(wrap(metadata.MetadataProperty{})))
	}
	return nil, nb
}

func init() {
	reg(&eng.Check{
		ID: "C23", Level: "model_checking",
		Phases: []eng.Phase{
			{Name: "values", Bound: "every value of the menu (all kinds, sizes up to 20000 items), alone, nested in a block, and in an array of blocks, under every key of a menu", Body: func(c *eng.Ctx) {
				vs := metaVals(true, true, true)
				v := vs[c.Free(len(vs))]
				keys := []string{"k", "", "x", "a\"b\\c\n\x00é</\u2028", rep(200)}
				m := Meta{{keys[c.Free(len(keys))], v}}
				switch c.Free(4) {
				case 1:
					m = append(m, KV{"other", Val{Kind: VBool}})
				case 2:
					m = Meta{{"in", Val{Kind: VBlock, M: m}}}
				case 3:
					m = Meta{{"arr", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock}, {Kind: VBlock, M: m}, {Kind: VBlock, M: append(Meta{{"q", Val{Kind: VInt, I: 1}}}, m...)}}}}}
				}
				c.Describe(func() string { return saidBlock(m) })
				viaJSON(c, m)
				typed(c, v)
			}},
			depth(2, sizesPhase(5000, 70000, ", every block of the recording", func(c *eng.Ctx, m *Rec) {
				for _, b := range blocksOf(m) {
					viaJSON(c, b)
				}
			})),
			{Name: "unset", Bound: "blocks that were never filled, alone, nested and in arrays", Body: func(c *eng.Ctx) {
				m, b := unsetBlock(c)
				viaJSONReal(c, m, b)
			}},
			{Name: "pairs", Bound: "every pair of values of the menu together in one block, under keys a,b and x,y", Body: func(c *eng.Ctx) {
				vs := metaVals(true, true, false)
				a, b := vs[c.Free(len(vs))], vs[c.Free(len(vs))]
				m := Meta{{"a", a}, {"b", b}}
				if c.Free(2) == 1 {
					m = Meta{{"x", a}, {"y", b}}
				}
				c.Describe(func() string { return saidBlock(m) })
				viaJSON(c, m)
			}},
			{Name: "numbers", Bound: "int32 and float32 values: every power of two and of ten, 2 either side; all vectors of 3 components over 12 numbers", Body: func(c *eng.Ctx) {
				switch c.Free(3) {
				case 0:
					e := c.Free(32)
					d := c.Free(5) - 2
					i := int32(1<<uint(e)) + int32(d)
					if c.Free(2) == 1 {
						i = -i
					}
					viaJSON(c, Meta{{"i", Val{Kind: VInt, I: i}}, {"a", Val{Kind: VArr, Elem: VInt, Arr: []Val{{Kind: VInt, I: i}, {Kind: VInt, I: -i}}}}})
				case 1:
					var f float32
					if c.Free(2) == 0 {
						f = float32(math.Pow(2, float64(c.Free(277)-149)))
					} else {
						f = float32(math.Pow(10, float64(c.Free(84)-45)))
					}
					for d := c.Free(5); d > 0; d-- {
						if d&1 == 1 {
							f = math.Nextafter32(f, 0)
						} else {
							f = math.Nextafter32(f, math.MaxFloat32)
						}
					}
					if c.Free(2) == 1 {
						f = -f
					}
					viaJSON(c, Meta{{"f", Val{Kind: VF32, F: f}}, {"a", Val{Kind: VArr, Elem: VF32, Arr: []Val{{Kind: VF32, F: f}, {Kind: VF32, F: 0.5}}}}})
				case 2:
					ns := []float64{0, 1, -1, 0.1, 1e6, 1e-9, 1e21, 1e300, 5e-324, math.MaxFloat64, 123456789.123456789, 16777217}
					var v [3]float64
					for i := range v {
						v[i] = ns[c.Free(len(ns))]
					}
					viaJSON(c, Meta{{"v3", Val{Kind: VVec3, V: v}}, {"v2", Val{Kind: VVec2, V: [3]float64{v[0], v[2]}}},
						{"a", Val{Kind: VArr, Elem: VVec3, Arr: []Val{{Kind: VVec3, V: v}, {Kind: VVec3, V: [3]float64{v[1], v[2], v[0]}}}}}})
				}
			}},
			{Name: "strings", Bound: "all strings of at most 4 (thorough 5) characters over 14 special ones (shorter ones also inside a long text), as value, key and array item", Body: func(c *eng.Ctx) {
				al := []string{"0", "x", "a", "G", "\"", "\\", "\n", "\x00", "%", "<", "é", "\u2028", "\U0001F600", "u"}
				n := 4
				if c.Tier == "thorough" {
					n = 5
				}
				s := ""
				for n = c.Free(n + 1); n > 0; n-- {
					s += al[c.Free(len(al))]
				}
				if len(s) < 7 && c.Free(2) == 1 {
					s = text(45) + s + text(300)
				}
				v := Val{Kind: VStr, S: s}
				c.Describe(func() string { return fmt.Sprintf("%q", s) })
				viaJSON(c, Meta{{"v", v}, {"k" + s, Val{Kind: VBool}}, {"a", Val{Kind: VArr, Elem: VStr, Arr: []Val{{Kind: VStr, S: "t"}, v, v}}}})
			}},
			{Name: "times", Bound: "times in every year from 1 to 9999 at 6 instants", Body: func(c *eng.Ctx) {
				y := 1 + c.Free(9999)
				d := []time.Time{
					time.Date(y, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(y, 2, 28, 23, 59, 59, 999999000, time.UTC), time.Date(y, 3, 1, 12, 30, 15, 1000, time.UTC),
					time.Date(y, 6, 30, 1, 2, 3, 500000000, time.UTC), time.Date(y, 10, 31, 9, 8, 7, 120000000, time.UTC), time.Date(y, 12, 30, 23, 0, 0, 999000, time.UTC)}
				m := Meta{}
				a := Val{Kind: VArr, Elem: VTime}
				for i, t := range d {
					v := Val{Kind: VTime, T: t.UnixMicro()}
					m = append(m, KV{fmt.Sprint(i), v})
					a.Arr = append(a.Arr, v)
				}
				m = append(m, KV{"all", a})
				viaJSON(c, m)
			}},
			{Name: "extremes", Bound: "every value of the menu including numbers that are not finite, times of every order of magnitude and text that is not UTF-8, alone and nested: an error or valid JSON that converts back or is refused", Body: func(c *eng.Ctx) {
				vs := metaVals(false, false, false)
				for e := 0; e < 63; e++ {
					vs = append(vs, Val{Kind: VTime, T: 1 << uint(e)}, Val{Kind: VTime, T: -1 << uint(e)})
				}
				v := vs[c.Free(len(vs))]
				m := Meta{{"k", v}}
				switch c.Free(3) {
				case 1:
					m = Meta{{"in", Val{Kind: VBlock, M: m}}}
				case 2:
					m = Meta{{"arr", Val{Kind: VArr, Elem: VBlock, Arr: []Val{{Kind: VBlock, M: m}}}}}
				}
				c.Describe(func() string { return saidBlock(m) })
				var doc []byte
				var err error
				c.NoPanic("converting metadata to JSON", func() { doc, err = metadata.NewMetadataProperty(m.Real()).MarshalJSON() })
				if err != nil {
					inf := strings.Contains(saidBlock(m), "Inf") || strings.Contains(saidBlock(m), "NaN")
					if !inf && v.Kind != VTime {
						c.Fail("%v is not converted to JSON: %v", v, err)
					}
					return
				}
				if _, err := strictJSON(doc); err != nil {
					c.Fail("%s converted to %q: %v", saidBlock(m), doc, err)
				}
				got, err := fromJSONBlock(c, doc)
				if v.Kind == VTime && v.T > -62135596800000000 && v.T < 253402214400000000 && (err != nil || saidBlock(got) != saidBlock(m)) {
					c.Fail("%s came back as %s (%v)", saidBlock(m), saidBlock(got), err)
				}
			}},
			{Name: "atoms", Bound: "every special JSON value of a list, alone, doubled and in pairs in an array, and in an object", Body: func(c *eng.Ctx) {
				a := jsonAtoms[c.Free(len(jsonAtoms))]
				var doc string
				switch c.Free(7) {
				case 0:
					doc = `{"k":` + a + `}`
				case 1:
					doc = `{"k":[` + a + `]}`
				case 2:
					doc = `{"k":[` + a + `,` + a + `]}`
				case 3:
					doc = `{"k":[` + a + `,` + jsonAtoms[c.Free(len(jsonAtoms))] + `]}`
				case 4:
					doc = `{"x":` + a + `,"y":` + jsonAtoms[c.Free(len(jsonAtoms))] + `}`
				case 5:
					doc = `{"k":{"n":[{"d":` + a + `},{}]},"l":true}`
				case 6:
					doc = a
				}
				c.Describe(func() string { return doc })
				checkDoc(c, doc)
			}},
			{Name: "kinds", Bound: "every special JSON value of the list, alone or in an array, read as a value of each of 10 kinds", Body: func(c *eng.Ctx) {
				doc := jsonAtoms[c.Free(len(jsonAtoms))]
				switch c.Free(4) {
				case 1:
					doc = `[` + doc + `]`
				case 2:
					doc = `[` + doc + `,` + doc + `]`
				case 3:
					doc = `[` + doc + `,` + jsonAtoms[c.Free(len(jsonAtoms))] + `]`
				}
				ks := []VK{VArr, VStr, VInt, VF32, VBool, VByte, VVec2, VVec3, VBlock, VTime}
				k := ks[c.Free(len(ks))]
				c.Describe(func() string { return fmt.Sprint(doc, " as ", k) })
				typedDoc(c, k, doc)
			}},
			{Name: "documents", Bound: "all JSON objects of depth at most 3 and width 2 (thorough depth 3 and width 3, capped) over 8 atoms", Body: func(c *eng.Ctx) {
				w := 2
				keys := []string{"k", "x"}
				n := 1 + c.Free(2)
				var o []string
				for i := 0; i < n; i++ {
					d := 2
					if n == 2 {
						d = 1
					}
					if c.Tier == "thorough" && n == 1 {
						w = 2 + c.Free(2)
					}
					if c.Tier == "thorough" && w == 3 {
						d = 1
					}
					o = append(o, fmt.Sprintf("%q:%s", keys[i], jsonText(c, d, w)))
				}
				doc := "{" + strings.Join(o, ",") + "}"
				c.Describe(func() string { return doc })
				checkDoc(c, doc)
			}},
			{Name: "broken", Bound: "every prefix, every deletion of one byte and every replacement of one byte by 10 others of 3 documents", Body: func(c *eng.Ctx) {
				docs := []string{`{"a":[1,2.5],"b":{"x":1,"y":2},"c":"0x4a"}`, `{"t":"2021-01-02T03:04:05Z","n":[{"q":[true,false]},{"x":1,"y":2,"z":3}]}`, `{"s":["a\"","\u00e9"],"e":{},"f":-1.5e3}`}
				doc := docs[c.Free(len(docs))]
				i := c.Free(len(doc))
				switch k := c.Free(12); k {
				case 0:
					doc = doc[:i]
				case 1:
					doc = doc[:i] + doc[i+1:]
				default:
					doc = doc[:i] + string("\"\\{}[],:0 "[k-2]) + doc[i+1:]
				}
				c.Describe(func() string { return doc })
				checkDoc(c, doc)
			}},
		},
	})
}
