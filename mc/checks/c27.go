package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/cli"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// Fresh gives the result of one operation of a family in a process that has
// done nothing else (called by "rapmc fresh FAMILY OP").
func Fresh(family string, op string) string {
	f := families[family]
	c := &eng.Ctx{}
	w := f.world(c)
	for _, o := range f.ops {
		if o.name == op {
			return result(c, w, o)
		}
	}
	panic("no operation " + op)
}

type op struct {
	name string
	run  func(w *world) string
}

type family struct {
	name  string
	world func(c *eng.Ctx) *world
	ops   []op
	fresh map[string]string
	uses  map[string]int
}

var families = map[string]*family{}

// world are the objects operations share.
type world struct {
	c      *eng.Ctx
	recs   []format.Recording // must never change
	was    []string
	colls  []format.CaptureCollection
	cwas   []string
	encs   []encoding.Encoder
	ewas   string
	out    *swDest
	comp   rapio.Writer
	plain  rapio.Writer
	files  [][]byte
	props  []metadata.Property
	pwas   []string
	kept   []keep
	blocks []metadata.Block
	hook   func() // called before every use of a stream, when set
}

// src and dst are streams that call the world's hook.
func (w *world) src(r io.Reader) io.Reader {
	if w.hook == nil {
		return r
	}
	return hookIO{w, r, nil}
}

func (w *world) dst(d io.Writer) io.Writer {
	if w.hook == nil {
		return d
	}
	return hookIO{w, nil, d}
}

type hookIO struct {
	w *world
	r io.Reader
	d io.Writer
}

func (h hookIO) Read(p []byte) (int, error) {
	h.w.hook()
	return h.r.Read(p)
}

func (h hookIO) Write(p []byte) (int, error) {
	h.w.hook()
	return h.d.Write(p)
}

// keep is an earlier result.
type keep struct {
	op   string
	what func() string
	was  string
}

// swDest is a destination that can fail now and then.
type swDest struct {
	got   []byte
	calls int
	fail  int // -1: never
	half  bool
}

func (d *swDest) Write(p []byte) (int, error) {
	i := d.calls
	d.calls++
	if d.fail >= 0 && i >= d.fail {
		n := 0
		if d.half && i == d.fail {
			n = len(p) / 2
		}
		d.got = append(d.got, p[:n]...)
		return n, errDest
	}
	d.got = append(d.got, p...)
	return len(p), nil
}

func (d *swDest) set(fail int, half bool) { *d = swDest{fail: fail, half: half} }

// full is the text of a recording with everything in it.
func full(r *Rec) string {
	var b strings.Builder
	var rec func(r *Rec)
	meta := func(m Meta) string { return metaText(m) }
	rec = func(r *Rec) {
		fmt.Fprintf(&b, "{%q %q %s", r.ID, r.Name, meta(r.Meta))
		for _, c := range r.Colls {
			fmt.Fprintf(&b, " coll(%q %q %q", c.Kind, c.Name, c.Members)
			for _, x := range c.Caps {
				fmt.Fprintf(&b, " [%v %v %v %q %s]", x.T, x.V, x.I, x.Name, meta(x.Meta))
			}
			b.WriteString(")")
		}
		for _, x := range r.Refs {
			fmt.Fprintf(&b, " ref(%q %q %d %s)", x.Name, x.URI, x.Size, meta(x.Meta))
		}
		for _, x := range r.Bins {
			fmt.Fprintf(&b, " bin(%q %x %s)", x.Name, x.Data, meta(x.Meta))
		}
		for _, s := range r.Recs {
			rec(s)
		}
		b.WriteString("}")
	}
	rec(r)
	return b.String()
}

func metaText(m Meta) string {
	var o []string
	for _, kv := range m {
		o = append(o, fmt.Sprintf("%q=%s", kv.K, valText(kv.V)))
	}
	sort.Strings(o)
	return "<" + strings.Join(o, " ") + ">"
}

func valText(v Val) string {
	s := fmt.Sprintf("%d:%q %d %v %v %d %v %d %d %x", v.Kind, v.S, v.I, v.F, v.B, v.By, v.V, v.T, v.Elem, v.Raw)
	if len(v.M) > 0 {
		s += metaText(v.M)
	}
	for _, e := range v.Arr {
		s += "," + valText(e)
	}
	return s
}

// recText is the text of a recording of the library.
func recText(r format.Recording) string {
	if r == nil {
		return "nil"
	}
	m, err := From(r)
	if err != nil {
		return "incomplete: " + err.Error()
	}
	return full(m)
}

func collText(cc format.CaptureCollection) string {
	if cc == nil {
		return "nil"
	}
	return recText(format.NewRecording("", "", []format.CaptureCollection{cc}, nil, metadata.EmptyBlock(), nil, nil))
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

func encText(es []encoding.Encoder) (s string) {
	for _, e := range es {
		s += fmt.Sprintf("%T %s %d;", e, e.Signature(), e.Version())
	}
	return
}

// untouched runs every operation on a recording, twice: it stays as it is and
// gives the same results.
func untouched(c *eng.Ctx, m *Rec, t Tech) {
	r := m.Real()
	was := recText(r)
	still := func(after string) {
		if s := recText(r); s != was {
			c.Fail("the recording has changed after %s:\n%s\n%s", after, clipS(was), clipS(s))
		}
	}
	blocks := func() (s string) {
		var rec func(r format.Recording)
		rec = func(r format.Recording) {
			p := metadata.NewMetadataProperty(r.Metadata())
			j, err := p.MarshalJSON()
			b, err2 := p.MarshalBSON()
			s += fmt.Sprintf("%s %v %v %s", j, err, err2, propText(p))
			if err2 == nil {
				s += bdoc((&bdec{b: b}).doc())
			}
			for _, x := range r.Recordings() {
				rec(x)
			}
		}
		rec(r)
		return
	}
	win := func(a, b float64) func() string {
		return func() string { return recText(format.Slice(r, format.BeginningOfSlice(a), format.EndOfSlice(b))) }
	}
	encs := Encs(t)
	elist := encText(encs)
	ops := []op{
		{"writing", func(*world) string {
			var b bytes.Buffer
			n, err := rapio.NewWriter(encs, t.Compress, &b, rapio.TimeStorageTechnique(t.Time)).Write(r)
			return fmt.Sprintf("%d %s %x", n, errText(err), b.Bytes())
		}},
		{"slicing", func(*world) string { return win(1, 2)() + win(-1, 1e9)() + win(2, 2)() }},
		{"validating and measuring", func(*world) string {
			return errText(format.Validate(r)) + fmt.Sprint(format.RecordingStart(r), format.RecordingEnd(r), format.RecordingDuration(r))
		}},
		{"converting the metadata", func(*world) string { return blocks() }},
	}
	for _, o := range ops {
		x := result(c, nil, o)
		still(o.name)
		if y := result(c, nil, o); x != y {
			c.Fail("%s again gives\n%s\ninstead of\n%s", o.name, clipS(y), clipS(x))
		}
	}
	still("all")
	if e := encText(encs); e != elist {
		c.Fail("the list of encoders has changed from %s to %s", elist, e)
	}
	c.State(was)
}

func propText(p metadata.Property) string {
	return fmt.Sprintf("%d %s %x", p.Code(), p.String(), p.Data())
}

// result runs an operation; the result as text.
func result(c *eng.Ctx, w *world, o op) (s string) {
	c.Step(1)
	p, st := eng.Catch(func() { s = o.run(w) })
	if p != nil {
		return fmt.Sprintf("crash %v [%s]", p, st)
	}
	return
}

// want is the result on fresh objects in a fresh process.
func (f *family) want(o op) string {
	if f.fresh == nil {
		f.fresh = map[string]string{}
	}
	if s, ok := f.fresh[o.name]; ok {
		return s
	}
	cmd := exec.Command(os.Args[0], "fresh", f.name, o.name)
	b, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("fresh %s %s: %v", f.name, o.name, err))
	}
	f.fresh[o.name] = string(b)
	return string(b)
}

func (w *world) rec(m *Rec) format.Recording {
	r := m.Real()
	w.recs, w.was = append(w.recs, r), append(w.was, recText(r))
	return r
}

func (w *world) coll(c Coll) format.CaptureCollection {
	r := (&Rec{Colls: []Coll{c}}).Real().CaptureCollections()[0]
	w.colls, w.cwas = append(w.colls, r), append(w.cwas, collText(r))
	return r
}

func (w *world) prop(v Val) metadata.Property {
	p := v.Real()
	w.props, w.pwas = append(w.props, p), append(w.pwas, propText(p))
	return p
}

// keepRec remembers a result and gives its text.
func (w *world) keepRec(op string, r format.Recording) string {
	s := recText(r)
	w.kept = append(w.kept, keep{op, func() string { return recText(r) }, s})
	return s
}

func (w *world) keepBytes(op string, b []byte) string {
	s := fmt.Sprintf("%x", b)
	w.kept = append(w.kept, keep{op, func() string { return fmt.Sprintf("%x", b) }, s})
	return s
}

// check fails when an argument or an earlier result has changed.
func (w *world) check(after string) {
	for i, r := range w.recs {
		if s := recText(r); s != w.was[i] {
			w.c.Fail("recording %d has changed after %s:\n%s\n%s", i, after, w.was[i], s)
		}
	}
	for i, r := range w.colls {
		if s := collText(r); s != w.cwas[i] {
			w.c.Fail("collection %d has changed after %s:\n%s\n%s", i, after, w.cwas[i], s)
		}
	}
	if s := encText(w.encs); w.ewas != "" && s != w.ewas {
		w.c.Fail("the list of encoders has changed after %s:\n%s\n%s", after, w.ewas, s)
	}
	for i, p := range w.props {
		if s := propText(p); s != w.pwas[i] {
			w.c.Fail("value %d has changed after %s:\n%s\n%s", i, after, w.pwas[i], s)
		}
	}
	for _, k := range w.kept {
		if s := k.what(); s != k.was {
			w.c.Fail("the result of the earlier %s has changed after %s:\n%s\n%s", k.op, after, k.was, s)
		}
	}
}

// history runs a sequence of n operations.
func (f *family) history(c *eng.Ctx, n int) {
	w := f.world(c)
	var names []string
	c.Describe(func() string { return strings.Join(names, "; ") })
	for i := 0; i < n; i++ {
		o := f.ops[c.Free(len(f.ops))]
		want := f.want(o)
		names = append(names, o.name)
		got := result(c, w, o)
		if got != want {
			c.Fail("after %s: %s gives\n%s\nand on fresh objects\n%s", strings.Join(names[:i], "; "), o.name, clipS(got), clipS(want))
		}
		w.check(strings.Join(names, "; "))
	}
	c.State(fmt.Sprint(names))
}

// shared recordings of the histories.
func histRecs() (a, b, bad, dis *Rec) {
	eul := Coll{Kind: Euler, Name: "rot", Caps: []Cap{{T: 1, V: [3]float64{1, 2, 3}}, {T: 2, V: [3]float64{359, 180, 90.5}}}}
	a = &Rec{ID: "a", Name: "first", Meta: Meta{{"k1", Val{Kind: VStr, S: "v1"}}, {"k2", Val{Kind: VBlock, M: Meta{{"in", Val{Kind: VInt, I: 5}}}}}},
		Colls: []Coll{posColl(3), evtColl(2), enmColl(3), eul},
		Bins:  []Bin{{Name: "bin", Data: []byte("binary data"), Meta: Meta{{"k3", Val{Kind: VBool, B: true}}}}},
		Refs:  []Ref{{Name: "ref", URI: "u://x", Size: 7, Meta: Meta{{"k1", Val{Kind: VByte, By: 9}}}}},
		Recs:  []*Rec{{ID: "child", Name: "c", Meta: Meta{{"k4", Val{Kind: VArr, Elem: VStr, Arr: []Val{{Kind: VStr, S: "x"}, {Kind: VStr, S: "y"}}}}}, Colls: []Coll{posColl(2), oneColl(Float, 3)}}},
	}
	b = &Rec{ID: "b", Name: "second, longer name", Meta: Meta{{"z", Val{Kind: VF32, F: 2.5}}, {"k1", Val{Kind: VTime, T: 1600000000000000}}},
		Colls: []Coll{{Kind: Event, Name: "other", Caps: []Cap{{T: -3, Name: "stop", Meta: Meta{{"k2", Val{Kind: VStr, S: "w"}}}}, {T: 9, Name: "begin"}}}, {Kind: Enum, Name: "e2", Members: []string{"Off", "Half", "On"}, Caps: []Cap{{T: 4, I: 2}, {T: 5, I: 1}}}, {Kind: Pos, Name: "p2", Caps: []Cap{{T: 0, V: [3]float64{-1000, 5e4, 3}}, {T: 2, V: [3]float64{-900, 5e4, 4}}}}},
	}
	bad = &Rec{ID: "bad", Meta: a.Meta, Colls: []Coll{posColl(2)}, Recs: []*Rec{{Colls: []Coll{evtColl(2), {Kind: Enum, Name: "bad", Members: []string{"one"}, Caps: []Cap{{T: 1, I: 7}}}}}}}
	dis = &Rec{ID: "d", Name: "unordered", Colls: []Coll{{Kind: Pos, Name: "p", Caps: []Cap{{T: 5, V: [3]float64{1, 2, 3}}, {T: 1, V: [3]float64{4, 5, 6}}}}, {Kind: Event, Name: "none"}}}
	for _, k := range Order {
		dis.Colls = append(dis.Colls, timed(k, "unordered "+k, []float64{3, 1, 2}))
	}
	return
}

var histTech = Tech{Time: 2, Pos: 3, Euler: 2, Float: 2, Compress: true}

// unknown is a collection no encoder accepts.
type unknown struct{ format.CaptureCollection }

func (unknown) Signature() string { return "unknown" }

// odd is a collection with the captures of another one.
type odd struct {
	format.CaptureCollection
	of format.CaptureCollection
}

func (o odd) Captures() []format.Capture     { return o.of.Captures() }
func (o odd) CaptureAt(i int) format.Capture { return o.of.CaptureAt(i) }
func (o odd) Length() int                    { return o.of.Length() }

func init() {
	var files [][]byte
	histFiles := func() [][]byte {
		if files == nil {
			a, b, _, _ := histRecs()
			files = append(files, Encode(a, Tech{}, Order).Bytes())
			files = append(files, func() []byte { im := Encode(b, Tech{}, Order); im.Compress = true; return im.Bytes() }())
			v := &V1Rec{Name: "v1", Meta: [][2]string{{"m", "1"}}, Events: []V1Event{{T: 1, Name: "e", Contents: "c", Data: [][2]string{{"d", "2"}}}},
				Subjects: []V1Subject{{ID: 3, Name: "s", Meta: [][2]string{{"q", "3"}}, Pos: []V1Vec{{1, 2, 3, 4}, {2, 3, 4, 5}}, Rot: []V1Vec{{1, 2, 3, 4}}, Life: []V1Life{{1, 1}}}}}
			files = append(files, V1File(v.Proto(), 1, 9))
		}
		return files
	}
	newWorld := func(c *eng.Ctx) *world {
		w := &world{c: c}
		a, b, bad, dis := histRecs()
		w.rec(a)
		w.rec(b)
		r := bad.Real()
		w.recs, w.was = append(w.recs, r), append(w.was, recText(r))
		w.rec(dis)
		w.encs = Encs(histTech)
		w.ewas = encText(w.encs)
		w.out = &swDest{fail: -1}
		w.comp = rapio.NewWriter(w.encs, true, w.out, rapio.BST16)
		w.plain = rapio.NewWriter(w.encs, false, w.out, rapio.Raw32)
		for _, f := range histFiles() {
			w.files = append(w.files, append([]byte{}, f...))
		}
		return w
	}
	wr := func(w *world, which rapio.Writer, r format.Recording) string {
		n, err := which.Write(r)
		s := fmt.Sprintf("%d %s %x", n, errText(err), w.out.got)
		w.out.set(-1, false)
		return s
	}
	rd := func(w *world, name string, b []byte) string {
		in := append([]byte{}, b...)
		r, n, err := rapio.NewReader(w.encs, bytes.NewReader(in)).Read()
		s := fmt.Sprintf("%d %s ", n, errText(err))
		if err == nil {
			s += w.keepRec(name, r)
		}
		for i := range in { // the buffer that was read from is used for something else
			in[i] = 0xAA
		}
		return s
	}
	doc := func(i int) []byte {
		return []byte([]string{
			`{"id":"j","name":"json","metadata":{"k1":"x","n":[1,2]},"collections":[{"name":"p","type":"recolude.position","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}}]},{"name":"e","type":"recolude.event","captures":[{"time":1,"data":{"name":"go","metadata":{"a":{"b":1}}}}]},{"name":"n","type":"recolude.enum","captures":[{"time":1,"data":"B"},{"time":2,"data":"A"}]}],"recordings":[{"id":"c","name":"child"}]}`,
			`{"id":"j2","name":"other","collections":[{"name":"n","type":"recolude.enum","captures":[{"time":1,"data":"A"}]},{"name":"e","type":"recolude.euler","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}}]}],"metadata":{"n":["s"]}}`,
			`{"id":"j3","name":"third","metadata":{"n":[1,"s"]},"collections":[{"name":"n","type":"recolude.enum","captures":[{"time":"x","data":"A"}]}]}`,
			`{"id":"j4",`,
		}[i])
	}
	imp := func(i int) func(*world) string {
		return func(w *world) string {
			d := doc(i)
			r, err := parsing.FromJSON(d)
			for i := range d {
				d[i] = ' '
			}
			if err != nil {
				return errText(err)
			}
			return w.keepRec("import", r)
		}
	}
	tool := func(w *world, in []byte, args ...string) string {
		var out bytes.Buffer
		err := cli.ZZBuildApp(bytes.NewReader(in), &out, io.Discard).Run(append([]string{"rap"}, args...))
		return errText(err) + " " + out.String()
	}
	lib := &family{name: "library", world: newWorld}
	add := func(name string, run func(w *world) string) { lib.ops = append(lib.ops, op{name, run}) }
	add("write a compressed", func(w *world) string { return wr(w, w.comp, w.recs[0]) })
	add("write b compressed", func(w *world) string { return wr(w, w.comp, w.recs[1]) })
	add("write a uncompressed", func(w *world) string { return wr(w, w.plain, w.recs[0]) })
	add("write b uncompressed", func(w *world) string { return wr(w, w.plain, w.recs[1]) })
	add("write a recording that cannot be encoded", func(w *world) string { return wr(w, w.plain, w.recs[2]) })
	add("write a recording with an unknown collection", func(w *world) string {
		x := unknown{w.recs[0].CaptureCollections()[0]}
		r := format.NewRecording("u", "", []format.CaptureCollection{w.recs[1].CaptureCollections()[0], x}, []format.Recording{w.recs[0]}, w.recs[0].Metadata(), nil, nil)
		return wr(w, w.comp, r)
	})
	add("write a recording with captures of another type", func(w *world) string {
		cs := w.recs[0].CaptureCollections()
		r := format.NewRecording("u", "", append([]format.CaptureCollection{w.recs[1].CaptureCollections()[0]}, odd{cs[2], cs[0]}), nil, w.recs[0].Metadata(), nil, nil)
		return wr(w, w.plain, r)
	})
	for _, k := range []int{0, 2, 6} {
		k := k
		add(fmt.Sprintf("write a to a destination failing at call %d", k), func(w *world) string {
			w.out.set(k, true)
			return wr(w, w.plain, w.recs[0])
		})
	}
	add("write b compressed to a failing destination", func(w *world) string {
		w.out.set(0, true)
		return wr(w, w.comp, w.recs[1])
	})
	add("read a", func(w *world) string { return rd(w, "read", w.files[0]) })
	add("read b", func(w *world) string { return rd(w, "read", w.files[1]) })
	add("read half of a", func(w *world) string { return rd(w, "read", w.files[0][:len(w.files[0])/2]) })
	add("read most of b", func(w *world) string { return rd(w, "read", w.files[1][:len(w.files[1])-9]) })
	add("read a from a failing input", func(w *world) string {
		r, n, err := rapio.NewReader(w.encs, io.MultiReader(bytes.NewReader(w.files[0][:len(w.files[0])/3]), badIn{})).Read()
		return fmt.Sprint(n, errText(err), r != nil)
	})
	add("load version 1", func(w *world) string {
		r, n, err := rapio.Load(bytes.NewReader(w.files[2]))
		if err != nil {
			return errText(err)
		}
		return fmt.Sprint(n) + w.keepRec("load", r)
	})
	add("write what was read last", func(w *world) string {
		// reads a again and writes the result twice
		r, _, err := rapio.NewReader(w.encs, bytes.NewReader(w.files[0])).Read()
		if err != nil {
			return errText(err)
		}
		s := w.keepRec("read", r)
		return s + wr(w, w.comp, r) + wr(w, w.plain, r)
	})
	for i, n := range []string{"import", "import another", "import an unsupported document", "import a broken document"} {
		add(n, imp(i))
	}
	add("import a table", func(w *world) string {
		r, err := cli.ZZRecordingFromCSV(strings.NewReader("id,name,time,x,y,z\n1,n,1,2,3,4\n2,m,1,2,3,4\n1,n,2,2,3,4\n"))
		if err != nil {
			return errText(err)
		}
		return w.keepRec("table import", r)
	})
	add("slice a", func(w *world) string {
		return w.keepRec("slice", format.Slice(w.recs[0], format.BeginningOfSlice(1), format.EndOfSlice(2.6)))
	})
	add("slice a without binaries", func(w *world) string {
		return w.keepRec("slice", format.Slice(w.recs[0], format.KeepBinariesInSlice(false)))
	})
	add("slice the unordered one", func(w *world) string {
		return w.keepRec("slice", format.Slice(w.recs[3], format.BeginningOfSlice(2), format.EndOfSlice(2)))
	})
	add("validate and measure all", func(w *world) string {
		var s []string
		for _, r := range w.recs {
			s = append(s, errText(format.Validate(r)), errText(format.Validate(r, format.RequireChronologicalCapture(false))), fmt.Sprint(format.RecordingStart(r), format.RecordingEnd(r), format.RecordingDuration(r)))
		}
		return strings.Join(s, "|")
	})
	add("values of a", func(w *world) string {
		var s []string
		m := w.recs[0].Metadata()
		mp := metadata.NewMetadataProperty(m)
		j, err := mp.MarshalJSON()
		s = append(s, fmt.Sprintf("%s %v", j, err))
		b, err := mp.MarshalBSON()
		d := &bdec{b: b}
		s = append(s, bdoc(d.doc()), errText(err), propText(mp))
		return strings.Join(s, "|")
	})
	add("export a, b and version 1", func(w *world) string {
		return tool(w, w.files[0], "to-json") + tool(w, w.files[1], "to-json") + tool(w, w.files[2], "to-json")
	})
	onFile := func(w *world, cmd string, data []byte) string {
		dir, done := scratch(w.c)
		defer done()
		return strings.ReplaceAll(tool(w, nil, cmd, "--file", put(dir, "file", data)), dir, "")
	}
	add("summarize b", func(w *world) string { return onFile(w, "summarize", w.files[1]) })
	add("upgrade version 1", func(w *world) string { return onFile(w, "upgrade", w.files[2]) })
	add("table command", func(w *world) string {
		return onFile(w, "from-csv", []byte("id,name,time,x,y,z\n1,n,1,2,3,4\n"))
	})
	add("command import", func(w *world) string { return tool(w, doc(0), "from-json") })
	add("command import fails", func(w *world) string { return tool(w, doc(2), "from-json") })
	families["library"] = lib

	// the encoders on their own
	for e := 0; e < 14; e++ {
		e := e
		f := encoderFamily(e)
		families[f.name] = f
	}
	families["values"] = valueFamily()
	families["parts"] = partFamily()

	depth := func(c *eng.Ctx, q, t int) int {
		if c.Tier == "thorough" {
			return t
		}
		return q
	}
	reg(&eng.Check{
		ID: "C27", Level: "model_checking",
		Assumptions: []string{"the results of an operation on fresh objects are taken from a process that has done nothing else", "the order of map loops is fixed by the harness, so that results can be compared byte for byte; a sync.Pool gives back what was put last"},
		Phases: []eng.Phase{
			{Name: "library", Bound: fmt.Sprintf("all histories of 3 (thorough: 4) operations of %d over shared recordings, encoders, writers and files, including failing and refused ones; arguments and earlier results compared after each", len(lib.ops)), Body: func(c *eng.Ctx) {
				lib.history(c, depth(c, 3, 4))
			}},
			{Name: "encoders", Bound: "every encoder and technique: all histories of 3 (thorough: 4) of its operations on shared collections and earlier results", Body: func(c *eng.Ctx) {
				families[fmt.Sprint("encoder ", c.Free(14))].history(c, depth(c, 3, 4))
			}},
			{Name: "values", Bound: "all histories of 3 (thorough: 4) conversions of shared metadata values of every kind", Body: func(c *eng.Ctx) {
				families["values"].history(c, depth(c, 3, 4))
			}},
			{Name: "parts", Bound: "all histories of 4 (thorough: 5) uses of the collections, binaries and blocks of a shared recording", Body: func(c *eng.Ctx) {
				families["parts"].history(c, depth(c, 4, 5))
			}},
			{Name: "arguments", Bound: "writing in 2 technique sets, slicing, validating, measuring and converting, twice each, leave each recording as it is that differs from a rich base in at most D details (unordered times included)", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				t := Full
				if c.Free(2) == 1 {
					t = histTech
				}
				m := FullGen(c).Rec()
				c.Describe(m.String)
				untouched(c, m, t)
			}},
			buffersPhase(),
			{Name: "unordered", Bound: "the same for every sequence of at most 4 times out of 4 in each kind of collection", Body: func(c *eng.Ctx) {
				k := Order[c.Free(5)]
				ts := make([]float64, c.Free(5))
				for i := range ts {
					ts[i] = float64(c.Free(4))
				}
				m := around(timed(k, "c", ts))
				c.Describe(m.String)
				untouched(c, m, []Tech{Full, histTech}[c.Free(2)])
			}},
			sizesPhase(129, 1025, " x the same operations", func(c *eng.Ctx, m *Rec) {
				untouched(c, m, Tech{Pos: 3, Euler: 2, Float: 2})
			}),
			{Name: "alike texts", Bound: "one writer for two recordings that differ in texts that look alike (as in lookalikes), in both orders: each is read back as it was", Body: func(c *eng.Ctx) {
				a, b := lookalikes(c)
				p := lookPlaces[c.Free(len(lookPlaces))]
				c.Describe(func() string { return fmt.Sprintf("%s: %q %q", p.name, a, b) })
				var out swDest
				out.set(-1, false)
				encs := Encs(Full)
				w := rapio.NewWriter(encs, false, &out, rapio.Raw64)
				for i, m := range []*Rec{p.rec(a, b), p.rec(b, a), p.rec(a, a+b), p.rec(a, b)} {
					out.set(-1, false)
					if _, err := w.Write(m.Real()); err != nil {
						c.Fail("writing recording %d fails: %v", i, err)
					}
					r, _, err := rapio.NewReader(encs, bytes.NewReader(out.got)).Read()
					if err != nil {
						c.Fail("reading recording %d fails: %v", i, err)
					}
					Same(c, fmt.Sprint("recording ", i, " written by one writer"), m, Complete(c, r), nil)
				}
				c.State(out.got)
			}},
			{Name: "repeats", Bound: "every operation 40 times in a row, and every two operations in turn 10 times", Body: func(c *eng.Ctx) {
				f := lib
				w := f.world(c)
				i := c.Free(len(f.ops))
				j := c.Free(len(f.ops))
				n := 10
				if i == j {
					n = 40
				}
				c.Describe(func() string { return f.ops[i].name + " / " + f.ops[j].name })
				for k := 0; k < n; k++ {
					for _, x := range []int{i, j} {
						o := f.ops[x]
						want := f.want(o)
						if got := result(c, w, o); got != want {
							c.Fail("%s and %s in turn: the result in round %d is\n%s\nand on fresh objects\n%s", f.ops[i].name, f.ops[j].name, k, clipS(got), clipS(want))
						}
					}
					w.kept = w.kept[:minInt(len(w.kept), 4)]
				}
				w.check("repeating")
				c.State(i, j)
			}},
		},
	})
}

type badIn struct{}

func (badIn) Read([]byte) (int, error) { return 0, errors.New("broken input") }

// encoderFamily are the operations of one encoder.
func encoderFamily(e int) *family {
	encs := []struct {
		kind string
		t    Tech
		n    int
	}{
		{Pos, Tech{Pos: 0}, 1}, {Pos, Tech{Pos: 1}, 1}, {Pos, Tech{Pos: 2}, 1}, {Pos, Tech{Pos: 3}, 1},
		{Euler, Tech{Euler: 0}, 2}, {Euler, Tech{Euler: 1}, 2}, {Euler, Tech{Euler: 2}, 2},
		{Float, Tech{Float: 0}, 4}, {Float, Tech{Float: 1}, 4}, {Float, Tech{Float: 2}, 4},
		{Event, Tech{}, 0}, {Enum, Tech{}, 3}, {Event, Tech{}, 0}, {Enum, Tech{}, 3},
	}[e]
	f := &family{name: fmt.Sprint("encoder ", e)}
	long := func(n int) Coll {
		c := oneColl(encs.kind, n)
		c.Name = fmt.Sprint("long", n)
		return c
	}
	var other Coll
	switch encs.kind {
	case Event:
		other = Coll{Kind: Event, Name: "o", Caps: []Cap{{T: 2, Name: "stop", Meta: Meta{{"a", Val{Kind: VStr, S: "1"}}, {"b", Val{Kind: VInt, I: 2}}}}, {T: 1, Name: "new", Meta: Meta{{"b", Val{Kind: VBool, B: true}}}}}}
	case Enum:
		other = Coll{Kind: Enum, Name: "o", Members: []string{"Z", "Off", "On"}, Caps: []Cap{{T: 1, I: 0}, {T: 2, I: 2}, {T: 3, I: 1}}}
	default:
		other = Coll{Kind: encs.kind, Name: "o", Caps: []Cap{{T: 1, V: [3]float64{-77, 300, 12.5}}, {T: 2, V: [3]float64{1e5, -4, 0}}}}
		if encs.kind == Float {
			for i := range other.Caps {
				other.Caps[i].V[1], other.Caps[i].V[2] = 0, 0
			}
		}
	}
	bad := Coll{Kind: Enum, Name: "bad", Members: []string{"one"}, Caps: []Cap{{T: 1, I: 7}}}
	if encs.kind != Enum {
		bad = Coll{Kind: encs.kind, Name: "bad", Caps: []Cap{{T: math.NaN(), V: [3]float64{math.NaN()}, Name: "x"}}}
	}
	lists := [][]int{{0}, {1}, {0, 1, 2}, {2, 0}, {3}, {0, 4}, {}}
	f.world = func(c *eng.Ctx) *world {
		w := &world{c: c}
		w.encs = []encoding.Encoder{Encs(encs.t)[encs.n]}
		w.coll(oneColl(encs.kind, 3))
		w.coll(other)
		w.coll(long(17))
		w.coll(oneColl(encs.kind, 0))
		w.coll(bad)
		return w
	}
	pick := func(w *world, l []int) (o []format.CaptureCollection) {
		for _, i := range l {
			o = append(o, w.colls[i])
		}
		return
	}
	times := func(c format.CaptureCollection) (o []float64) {
		for _, x := range c.Captures() {
			o = append(o, x.Time())
		}
		return
	}
	encode := func(name string, l []int) {
		f.ops = append(f.ops, op{name, func(w *world) string {
			h, bs, err := w.encs[0].Encode(pick(w, l))
			s := errText(err)
			if err == nil {
				s += w.keepBytes(name, h)
				for _, b := range bs {
					s += " " + w.keepBytes(name, b)
				}
			}
			return s
		}})
	}
	for _, l := range lists {
		encode(fmt.Sprint("encode ", l), l)
	}
	for _, l := range lists[:4] {
		l := l
		f.ops = append(f.ops, op{fmt.Sprint("decode ", l), func(w *world) string {
			h, bs, err := Encs(encs.t)[encs.n].Encode(pick(w, l))
			if err != nil {
				return errText(err)
			}
			s := ""
			for i, b := range bs {
				cc, err := w.encs[0].Decode("n", h, b, times(w.colls[l[i]]))
				s += errText(err)
				if err == nil {
					s += collText(cc)
					w.kept = append(w.kept, keep{"decode", func() string { return collText(cc) }, collText(cc)})
				}
			}
			return s
		}})
	}
	f.ops = append(f.ops, op{"decode cut data", func(w *world) string {
		h, bs, err := Encs(encs.t)[encs.n].Encode(pick(w, []int{2}))
		if err != nil {
			return errText(err)
		}
		_, err = w.encs[0].Decode("n", h, bs[0][:len(bs[0])/2], times(w.colls[2]))
		s := fmt.Sprint(err != nil)
		if len(h) > 0 {
			_, err = w.encs[0].Decode("n", h[:len(h)/2], bs[0], times(w.colls[2]))
			s += fmt.Sprint(err != nil)
		}
		return s
	}}, op{"encode captures of another type", func(w *world) string {
		wrong := (&Rec{Colls: []Coll{oneColl(map[bool]string{true: Enum, false: Pos}[encs.kind == Pos], 2)}}).Real().CaptureCollections()[0]
		_, _, err := w.encs[0].Encode([]format.CaptureCollection{w.colls[0], odd{w.colls[1], wrong}})
		return errText(err)
	}}, op{"ask", func(w *world) string {
		s := fmt.Sprint(w.encs[0].Signature(), w.encs[0].Version())
		for _, c := range w.colls {
			s += fmt.Sprint(w.encs[0].Accepts(c))
		}
		return s
	}})
	return f
}

// valueFamily are conversions of metadata values.
func valueFamily() *family {
	f := &family{name: "values"}
	vs := kindVals()
	f.world = func(c *eng.Ctx) *world {
		w := &world{c: c}
		for _, v := range vs {
			w.prop(v)
		}
		return w
	}
	for i := range vs {
		i := i
		f.ops = append(f.ops, op{fmt.Sprint("text and bytes of value ", i), func(w *world) string {
			p := w.props[i]
			d := p.Data()
			s := propText(p)
			w.kept = append(w.kept, keep{"bytes", func() string { return fmt.Sprintf("%x", d) }, fmt.Sprintf("%x", d)})
			return s
		}}, op{fmt.Sprint("convert value ", i), func(w *world) string {
			m := metadata.NewMetadataProperty(metadata.NewBlock(map[string]metadata.Property{"k": w.props[i], "l": w.props[0]}))
			j, err := m.MarshalJSON()
			b, err2 := m.MarshalBSON()
			d := &bdec{b: append([]byte{}, b...)}
			s := fmt.Sprintf("%s %v %s %v", j, err, bdoc(d.doc()), err2)
			w.kept = append(w.kept, keep{"JSON", func() string { return string(j) }, string(j)}, keep{"BSON", func() string { return fmt.Sprintf("%x", b) }, fmt.Sprintf("%x", b)})
			return s
		}}, op{fmt.Sprint("write and read value ", i), func(w *world) string {
			var b bytes.Buffer
			n, err := metadata.WriteProprty(&b, w.props[i])
			if err != nil {
				return errText(err)
			}
			in := append([]byte{}, b.Bytes()...)
			q, err := metadata.ReadProperty(bytes.NewReader(in))
			if err != nil {
				return errText(err)
			}
			for k := range in {
				in[k] = 0x55
			}
			s := propText(q)
			w.kept = append(w.kept, keep{"read value", func() string { return propText(q) }, s})
			return fmt.Sprint(n, s)
		}})
	}
	return f
}

// partFamily are uses of the parts of one recording.
func partFamily() *family {
	f := &family{name: "parts"}
	f.world = func(c *eng.Ctx) *world {
		w := &world{c: c}
		a, _, _, dis := histRecs()
		w.rec(a)
		w.rec(dis)
		file := Encode(a, Tech{}, Order).Bytes()
		r, _, err := rapio.NewReader(Encs(Tech{}), bytes.NewReader(file)).Read()
		if err == nil {
			w.recs, w.was = append(w.recs, r), append(w.was, recText(r))
		}
		return w
	}
	add := func(name string, run func(w *world) string) { f.ops = append(f.ops, op{name, run}) }
	each := func(w *world, g func(r format.Recording) string) string {
		s := ""
		var rec func(r format.Recording)
		rec = func(r format.Recording) {
			s += g(r)
			for _, x := range r.Recordings() {
				rec(x)
			}
		}
		for _, r := range w.recs {
			rec(r)
		}
		return s
	}
	add("read binaries in part", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			for _, b := range r.Binaries() {
				p := make([]byte, 4)
				n, err := io.ReadFull(b.Data(), p)
				s += fmt.Sprint(n, err, string(p), b.Size(), b.Name())
			}
			return
		})
	})
	add("read binaries", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			for _, b := range r.Binaries() {
				p, err := io.ReadAll(b.Data())
				s += fmt.Sprint(err, string(p))
				for i := range p {
					p[i] = 'X'
				}
			}
			return
		})
	})
	add("look at collections", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			for _, c := range r.CaptureCollections() {
				s += fmt.Sprint(c.Name(), c.Signature(), c.Length(), c.Start(), c.End())
				for i, x := range c.Captures() {
					s += fmt.Sprint(x.Time(), x.String(), c.CaptureAt(i).String())
				}
			}
			return
		})
	})
	for _, win := range [][2]float64{{1, 2.6}, {0, 0}, {2, 100}, {-1, 1}} {
		win := win
		add(fmt.Sprint("slice collections ", win), func(w *world) string {
			return each(w, func(r format.Recording) (s string) {
				for _, c := range r.CaptureCollections() {
					x := c.Slice(win[0], win[1])
					t := collText(x)
					s += t
					w.kept = append(w.kept, keep{"slice of a collection", func() string { return collText(x) }, t})
				}
				return
			})
		})
	}
	add("slice slices", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			for _, c := range r.CaptureCollections() {
				x := c.Slice(1, 100)
				y := x.Slice(2, 3)
				z := x.Slice(1, 2)
				for _, q := range []format.CaptureCollection{x, y, z} {
					q := q
					t := collText(q)
					s += t
					w.kept = append(w.kept, keep{"slice of a slice", func() string { return collText(q) }, t})
				}
			}
			return
		})
	})
	add("encode collections", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			for _, e := range Encs(histTech) {
				var l []format.CaptureCollection
				for _, c := range r.CaptureCollections() {
					if e.Accepts(c) {
						l = append(l, c)
					}
				}
				h, bs, err := e.Encode(l)
				s += fmt.Sprintf("%x %x %v", h, bs, err)
			}
			return
		})
	})
	add("blocks", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			p := metadata.NewMetadataProperty(r.Metadata())
			s = propText(p)
			q, err := metadata.UnmarshalNewMetadataProperty([]byte(`{"k1":"other","k2":3}`))
			s += errText(err)
			if err == nil {
				s += q.String()
			}
			return
		})
	})
	add("bounds and checks", func(w *world) string {
		return each(w, func(r format.Recording) (s string) {
			return fmt.Sprint(format.RecordingStart(r), format.RecordingEnd(r), errText(format.Validate(r)))
		})
	})
	return f
}
