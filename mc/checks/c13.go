package checks

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// v1texts are metadata and dictionary values.
var v1texts = []string{"", "1", "1.5", "-0", "1e3", "1e40", "1e-50", "Inf", "-infinity", "NaN", "0x1p4", "0x10", "1_0", " 1", "1 ", "1,5", "abc", "0.1", "16777217", "-2147483649", "true", "1.5.2", "+7", "é\"\\\n", "\x00", rep(200)}

var v1keys = []string{"k", "", "value", "ключ€", "a\"b\\\n", rep(130), "1"}

var v1floats = []float32{0, 1, -2.5, 1e-40, 3.4e38, -1e30, 0.1, 16777216, nan32, inf32, -inf32, float32(math.Copysign(0, -1))}

// V1Gen makes version 1 recordings that differ from a rich base in the
// deviations the explorer chooses.
func V1Gen(c *eng.Ctx, finite, chrono bool) *V1Rec { return v1Gen(c, finite, chrono, false) }

// v1Gen is V1Gen, with short menus if lean.
func v1Gen(c *eng.Ctx, finite, chrono, lean bool) *V1Rec {
	g := &Gen{c: c, Strs: true, Text: true, Big: true, Lean: lean}
	num := func(def float32) float32 {
		m := v1floats
		if finite {
			m = m[:8]
		}
		last := len(m)
		if k := g.pick(len(m)+1, 1, 6, last); k > 0 {
			return m[k-1]
		}
		return def
	}
	time := func(def float32) float32 {
		if chrono {
			return def
		}
		return num(def)
	}
	dict := func(def [][2]string) [][2]string {
		k := g.pick(1+len(v1texts)+len(v1keys)+3, 3, 8, len(v1texts)+2, len(v1texts)+len(v1keys)+3)
		if k == 0 {
			return def
		}
		if k--; k < len(v1texts) {
			return append([][2]string{{"v", v1texts[k]}}, def...)
		}
		if k -= len(v1texts); k < len(v1keys) {
			return [][2]string{{v1keys[k], "3.25"}, {v1keys[k] + "2", "t"}}
		}
		k -= len(v1keys)
		if k == 2 {
			return nil
		}
		var d [][2]string
		for i := 0; i < []int{1, 130}[k]; i++ {
			d = append(d, [2]string{fmt.Sprint("key", i), fmt.Sprint(i)})
		}
		return d
	}
	count := func(def int) int {
		m := []int{0, 1, 2, 3, 127, 128, 300}
		if k := g.pick(len(m)+1, 1, 2, 6); k > 0 {
			return m[k-1]
		}
		return def
	}
	event := func(i int, deep bool) V1Event {
		e := V1Event{T: float32(i) + 0.5, Name: fmt.Sprint("ev", i%2), Contents: fmt.Sprint("c", i)}
		if i%2 == 1 {
			e.Data = [][2]string{{"a", "b"}, {"n", "12"}}
		}
		if deep {
			e.T = time(e.T)
			e.Name = g.Str(e.Name)
			e.Contents = g.Str(e.Contents)
			e.Data = dict(e.Data)
		}
		return e
	}
	events := func(def int) (es []V1Event) {
		n := count(def)
		for i := 0; i < n; i++ {
			es = append(es, event(i, i < 2))
		}
		return
	}
	vecs := func(def int) (vs []V1Vec) {
		n := count(def)
		for i := 0; i < n; i++ {
			v := V1Vec{float32(i) * 0.5, float32(i*i) - 1, 2.25, -float32(i)}
			if i == 0 {
				v = V1Vec{time(v.T), num(v.X), num(v.Y), num(v.Z)}
			}
			vs = append(vs, v)
		}
		return
	}
	subject := func(i int) V1Subject {
		s := V1Subject{ID: int32(i) + 4, Name: g.Str(fmt.Sprint("subject", i))}
		m := []int32{0, -1, math.MaxInt32, math.MinInt32, 128, 4}
		if k := g.pick(len(m)+1, 2, 6); k > 0 {
			s.ID = m[k-1]
		}
		s.Meta = dict([][2]string{{"m", "str"}, {"n", "4.5"}})
		s.Events = events(2)
		s.Pos = vecs(3)
		s.Rot = vecs(2)
		n := count(4)
		for i := 0; i < n; i++ {
			l := V1Life{float32(i) + 1, int32(i % 4)}
			if i == 0 {
				l.T = time(l.T)
				if k := g.pick(4, 2); k > 0 {
					l.Type = int32(k)
				}
			}
			s.Life = append(s.Life, l)
		}
		return s
	}
	r := &V1Rec{Name: g.Str("rec"), Meta: dict([][2]string{{"m", "text"}, {"f", "2.5"}}), Events: events(2)}
	switch g.pick(6, 2, 3, 5) {
	case 0:
		r.Subjects = []V1Subject{subject(0), subject(1)}
	case 1:
	case 2:
		r.Subjects = []V1Subject{subject(0)}
	case 3:
		s := subject(0)
		r.Subjects = []V1Subject{s, s, s}
	case 4:
		for i := 0; i < 130; i++ {
			r.Subjects = append(r.Subjects, V1Subject{ID: int32(i), Name: fmt.Sprint("s", i), Pos: []V1Vec{{T: float32(i)}}})
		}
	case 5:
		r.Subjects = []V1Subject{{}, subject(1), {}}
	}
	return r
}

// loadV1 loads a version 1 file and compares it with what it means.
func loadV1(c *eng.Ctx, file []byte, want *Rec) {
	got, n := MustRead(c, file)
	Same(c, "the version 1 file loads differently", want, got, nil)
	if n != len(file) {
		c.Note("read reports %d bytes of %d", n, len(file))
	}
	c.State(file)
}

func v1samples() []string {
	fs, _ := filepath.Glob("/repo/test/data/io/v1/*.rap")
	return fs
}

// v1small enumerates messages with 0-2 of every part, at no cost.
func v1small(c *eng.Ctx, subjects int) *V1Rec {
	r := &V1Rec{Name: "small"}
	ev := func(n int, tag string) (es []V1Event) {
		for i := 0; i < n; i++ {
			e := V1Event{T: float32(i) + 1, Name: tag, Contents: fmt.Sprint(tag, i)}
			if i == 1 {
				e.Data = [][2]string{{tag, "1"}}
			}
			es = append(es, e)
		}
		return
	}
	r.Events = ev(c.Free(3), "root")
	for i := 0; i < subjects; i++ {
		s := V1Subject{ID: int32(i), Name: fmt.Sprint("s", i)}
		s.Events = ev(c.Free(3), fmt.Sprint("sub", i))
		vec := func(n int, f float32) (vs []V1Vec) {
			for k := 0; k < n; k++ {
				vs = append(vs, V1Vec{float32(k), f, f * float32(k), f - float32(i)})
			}
			return
		}
		s.Pos = vec(c.Free(3), 10)
		s.Rot = vec(c.Free(3), 20)
		for k := c.Free(3); k > 0; k-- {
			s.Life = append(s.Life, V1Life{float32(3 - k), int32(k + i)})
		}
		r.Subjects = append(r.Subjects, s)
	}
	return r
}

func init() {
	reg(&eng.Check{
		ID: "C13", Level: "model_checking",
		Assumptions: []string{"a version 1 file is the documented container around the documented protobuf message; both sample files of the repository are decoded by the independent decoder of that layout as well"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "all messages that differ from a rich base in at most D details", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				r := V1Gen(c, false, false)
				c.Describe(r.String)
				f := V1File(r.Proto(), 1, 1)
				if p, err := ParseV1(f); err != nil || Diff(r.Rec(), p.Rec(), nil) != "" {
					panic("harness bug: the reference decoder disagrees with the reference encoder")
				}
				loadV1(c, f, r.Rec())
			}},
			{Name: "layouts", Bound: "all messages that differ in at most D details x 5 field layouts x 4 compression levels", Quick: 1, Thor: 1, Body: func(c *eng.Ctx) {
				st := c.Free(V1Styles)
				lvl := []int{0, 1, 9, -2}[c.Free(4)]
				r := V1Gen(c, false, false)
				c.Describe(func() string { return fmt.Sprint("layout ", st, " level ", lvl, " ", r.String()) })
				loadV1(c, V1File(r.ProtoStyle(st), 1, lvl), r.Rec())
			}},
			{Name: "one subject", Bound: "0-2 of every part, one subject x 5 layouts", Body: func(c *eng.Ctx) {
				st := c.Free(V1Styles)
				r := v1small(c, 1)
				c.Describe(r.String)
				loadV1(c, V1File(r.ProtoStyle(st), 1, 1), r.Rec())
			}},
			{Name: "two subjects", Bound: "0-2 of every part, two subjects", Body: func(c *eng.Ctx) {
				r := v1small(c, 2)
				c.Describe(r.String)
				loadV1(c, V1File(r.Proto(), 1, 1), r.Rec())
			}},
			{Name: "dictionaries", Bound: "26 texts x 7 keys x 4 places x first, last or only entry", Body: func(c *eng.Ctx) {
				t := v1texts[c.Free(len(v1texts))]
				k := v1keys[c.Free(len(v1keys))]
				place := c.Free(4)
				d := [][2]string{{k, t}}
				switch c.Free(3) {
				case 1:
					d = append(d, [2]string{k + "x", "7"})
				case 2:
					d = append([][2]string{{k + "x", "other"}}, d...)
				}
				r := &V1Rec{Name: "d", Subjects: []V1Subject{{ID: 1}}, Events: []V1Event{{T: 1, Name: "e"}}}
				switch place {
				case 0:
					r.Meta = d
				case 1:
					r.Subjects[0].Meta = d
				case 2:
					r.Events[0].Data = d
				case 3:
					r.Subjects[0].Events = []V1Event{{T: 2, Name: "f", Contents: "unused", Data: d}, {T: 3, Contents: t}}
				}
				c.Describe(r.String)
				loadV1(c, V1File(r.Proto(), 1, 1), r.Rec())
			}},
			{Name: "times", Bound: "all sequences of 3 capture times over 12 numbers in each kind of collection", Body: func(c *eng.Ctx) {
				kind := c.Free(5)
				r := &V1Rec{Name: "t", Subjects: []V1Subject{{ID: 1}}}
				s := &r.Subjects[0]
				for i := 0; i < 3; i++ {
					t := v1floats[c.Free(len(v1floats))]
					switch kind {
					case 0:
						s.Pos = append(s.Pos, V1Vec{t, t, 1, 2})
					case 1:
						s.Rot = append(s.Rot, V1Vec{t, 3, t, 5})
					case 2:
						s.Events = append(s.Events, V1Event{T: t, Name: fmt.Sprint(i)})
					case 3:
						s.Life = append(s.Life, V1Life{t, int32(i)})
					case 4:
						r.Events = append(r.Events, V1Event{T: t, Name: fmt.Sprint(i)})
					}
				}
				c.Describe(r.String)
				loadV1(c, V1File(r.Proto(), 1, 1), r.Rec())
			}},
			depth(3, v1SizesPhase(5000, 70000, func(c *eng.Ctx, r *V1Rec) {
				loadV1(c, V1File(r.Proto(), 1, 1), r.Rec())
			})),
			{Name: "long", Bound: "300 to 70000 captures of each kind", Body: func(c *eng.Ctx) {
				n := []int{300, 16384, 70000}[c.Free(3)]
				kind := c.Free(5)
				r := &V1Rec{Name: "long", Subjects: []V1Subject{{ID: 1}, {ID: 2}}}
				s := &r.Subjects[c.Free(2)]
				for i := 0; i < n; i++ {
					t := float32(i) * 0.25
					switch kind {
					case 0:
						s.Pos = append(s.Pos, V1Vec{t, t, 1, 2})
					case 1:
						s.Rot = append(s.Rot, V1Vec{t, 3, t, 5})
					case 2:
						s.Events = append(s.Events, V1Event{T: t, Name: fmt.Sprint(i)})
					case 3:
						s.Life = append(s.Life, V1Life{t, int32(i % 4)})
					case 4:
						r.Events = append(r.Events, V1Event{T: t, Name: fmt.Sprint(i)})
					}
				}
				c.Describe(func() string { return fmt.Sprint(n, " captures of kind ", kind) })
				loadV1(c, V1File(r.Proto(), 1, 1), r.Rec())
			}},
			{Name: "container", Bound: "the base message with 0-9 bytes after it: loading takes exactly the file", Body: func(c *eng.Ctx) {
				r := v1small(c, 1)
				f := V1File(r.Proto(), 1, 1)
				k := c.Free(4)
				tail := raw(VBytes, []int{0, 1, 4, 9}[k]).Raw
				c.Describe(func() string { return fmt.Sprintf("%s followed by %d bytes", r.String(), len(tail)) })
				in := bytes.NewReader(append(append([]byte{}, f...), tail...))
				rec, _, err := Read(c, in)
				if err != nil {
					c.Fail("a version 1 file followed by %d bytes does not load: %v", len(tail), err)
				}
				Same(c, "a version 1 file followed by other bytes loads differently", r.Rec(), Complete(c, rec), nil)
				if in.Len() != len(tail) {
					c.Fail("loading left %d bytes of the %d that follow the file", in.Len(), len(tail))
				}
				c.State(f, k)
			}},
			{Name: "samples", Bound: "the sample files of the repository", Body: func(c *eng.Ctx) {
				fs := v1samples()
				if len(fs) == 0 {
					c.Skip()
				}
				name := fs[c.Free(len(fs))]
				b, err := os.ReadFile(name)
				if err != nil {
					panic(err)
				}
				r, err := ParseV1(b)
				if err != nil {
					panic("harness bug: the reference decoder rejects " + name + ": " + err.Error())
				}
				c.Describe(func() string { return name })
				loadV1(c, b, r.Rec())
			}},
		},
	})
}
