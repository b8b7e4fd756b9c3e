package model

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
)

// A version 1 recording as documented (docs/formats/v1) and the independent
// encoder of its file layout: byte 1, u32 count, u64 size, deflated protobuf.

type V1Event struct {
	T        float32
	Name     string
	Contents string
	Data     [][2]string // dictionary, unique keys
}

type V1Vec struct{ T, X, Y, Z float32 }

type V1Life struct {
	T    float32
	Type int32
}

type V1Subject struct {
	ID     int32
	Name   string
	Meta   [][2]string
	Events []V1Event
	Life   []V1Life
	Pos    []V1Vec
	Rot    []V1Vec
}

type V1Rec struct {
	Name     string
	Meta     [][2]string
	Subjects []V1Subject
	Events   []V1Event
}

func (w *wr) tag(f, wt int) { w.uv(uint64(f<<3 | wt)) }
func (w *wr) pstr(f int, s string) {
	if s != "" {
		w.tag(f, 2)
		w.str(s)
	}
}
func (w *wr) psub(f int, b []byte) {
	w.tag(f, 2)
	w.bytes(b)
}
func (w *wr) pf32(f int, x float32) {
	if math.Float32bits(x) != 0 {
		w.tag(f, 5)
		w.f32(x)
	}
}
func (w *wr) pint(f int, x int32) {
	if x != 0 {
		w.tag(f, 0)
		w.uv(uint64(int64(x)))
	}
}

// fld is one field of a message; order keeps fields of one number in order.
type fld struct {
	n int
	b []byte
}

// V1Styles are the ways in which a protobuf encoder may lay out a message.
const V1Styles = 5

// join lays fields out: 0 by number, 1 by descending number, 2 round robin over
// the numbers, 3 with unknown fields in between, 4 repeated ones first.
func join(style int, fs []fld) []byte {
	by := map[int][]fld{}
	var ns []int
	for _, f := range fs {
		if by[f.n] == nil {
			ns = append(ns, f.n)
		}
		by[f.n] = append(by[f.n], f)
	}
	sort.Ints(ns)
	var out []byte
	switch style {
	case 1, 4:
		for i := len(ns) - 1; i >= 0; i-- {
			for _, f := range by[ns[i]] {
				out = append(out, f.b...)
			}
		}
	case 2:
		for left := true; left; {
			left = false
			for _, n := range ns {
				if len(by[n]) > 0 {
					out = append(out, by[n][0].b...)
					by[n] = by[n][1:]
					left = true
				}
			}
		}
	default:
		for _, n := range ns {
			for _, f := range by[n] {
				if style == 3 {
					u := &wr{}
					u.tag(15, 0)
					u.uv(300)
					u.tag(2000, 2)
					u.str("unknown")
					out = append(out, u.b...)
				}
				out = append(out, f.b...)
			}
		}
	}
	return out
}

type msg struct {
	style int
	fs    []fld
}

func (m *msg) add(n int, f func(w *wr)) {
	w := &wr{}
	f(w)
	if len(w.b) > 0 {
		m.fs = append(m.fs, fld{n, w.b})
	}
}
func (m *msg) str(n int, s string) {
	m.add(n, func(w *wr) {
		if m.style == 4 && s == "" { // explicit default
			w.tag(n, 2)
			w.str(s)
		}
		w.pstr(n, s)
	})
}
func (m *msg) f32(n int, x float32) {
	m.add(n, func(w *wr) {
		if m.style == 4 && math.Float32bits(x) == 0 {
			w.tag(n, 5)
			w.f32(x)
		}
		w.pf32(n, x)
	})
}
func (m *msg) int(n int, x int32) {
	m.add(n, func(w *wr) {
		if m.style == 4 && x == 0 {
			w.tag(n, 0)
			w.uv(0)
		}
		w.pint(n, x)
	})
}
func (m *msg) sub(n int, s *msg) { m.add(n, func(w *wr) { w.psub(n, join(m.style, s.fs)) }) }
func (m *msg) dict(n int, d [][2]string) {
	for _, kv := range d {
		e := &msg{style: m.style}
		e.str(1, kv[0])
		e.str(2, kv[1])
		m.sub(n, e)
	}
}
func (m *msg) event(n int, e V1Event) {
	b := &msg{style: m.style}
	b.f32(1, e.T)
	b.str(2, e.Name)
	b.str(3, e.Contents)
	b.dict(4, e.Data)
	m.sub(n, b)
}
func (m *msg) vec(n int, v V1Vec) {
	b := &msg{style: m.style}
	b.f32(1, v.T)
	b.f32(2, v.X)
	b.f32(3, v.Y)
	b.f32(4, v.Z)
	m.sub(n, b)
}

// Proto is the protobuf message.
func (r *V1Rec) Proto() []byte { return r.ProtoStyle(0) }

// ProtoStyle is the protobuf message in one of V1Styles layouts.
func (r *V1Rec) ProtoStyle(style int) []byte {
	m := &msg{style: style}
	m.str(1, r.Name)
	m.dict(2, r.Meta)
	for _, s := range r.Subjects {
		b := &msg{style: style}
		b.int(1, s.ID)
		b.str(2, s.Name)
		b.dict(3, s.Meta)
		for _, e := range s.Events {
			b.event(4, e)
		}
		for _, l := range s.Life {
			lb := &msg{style: style}
			lb.f32(1, l.T)
			lb.int(2, l.Type)
			b.sub(5, lb)
		}
		for _, p := range s.Pos {
			b.vec(6, p)
		}
		for _, p := range s.Rot {
			b.vec(7, p)
		}
		m.sub(3, b)
	}
	for _, e := range r.Events {
		m.event(4, e)
	}
	return join(style, m.fs)
}

// ParseV1 is the independent decoder of a version 1 file (canonical messages).
func ParseV1(file []byte) (r *V1Rec, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	in := &rd{b: file}
	if in.u8() != 1 || in.u32() != 1 {
		return nil, fmt.Errorf("not one version 1 recording")
	}
	z := in.take(in.u64())
	if in.err != nil {
		return nil, in.err
	}
	raw, err := io.ReadAll(flate.NewReader(bytes.NewReader(z)))
	if err != nil {
		return nil, err
	}
	each := func(b []byte, f func(n int, v uint64, s []byte)) {
		x := &rd{b: b}
		for x.i < len(x.b) {
			t := x.uv()
			switch t & 7 {
			case 0:
				f(int(t>>3), x.uv(), nil)
			case 2:
				f(int(t>>3), 0, x.take(x.uv()))
			case 5:
				f(int(t>>3), uint64(x.u32()), nil)
			default:
				panic("wire type")
			}
			if x.err != nil {
				panic(x.err)
			}
		}
	}
	fl := func(v uint64) float32 { return math.Float32frombits(uint32(v)) }
	dict := func(b []byte) (kv [2]string) {
		each(b, func(n int, v uint64, s []byte) { kv[n-1] = string(s) })
		return
	}
	event := func(b []byte) (e V1Event) {
		each(b, func(n int, v uint64, s []byte) {
			switch n {
			case 1:
				e.T = fl(v)
			case 2:
				e.Name = string(s)
			case 3:
				e.Contents = string(s)
			case 4:
				e.Data = append(e.Data, dict(s))
			}
		})
		return
	}
	vec := func(b []byte) (e V1Vec) {
		each(b, func(n int, v uint64, s []byte) { *[]*float32{&e.T, &e.X, &e.Y, &e.Z}[n-1] = fl(v) })
		return
	}
	r = &V1Rec{}
	each(raw, func(n int, v uint64, s []byte) {
		switch n {
		case 1:
			r.Name = string(s)
		case 2:
			r.Meta = append(r.Meta, dict(s))
		case 3:
			var u V1Subject
			each(s, func(n int, v uint64, s []byte) {
				switch n {
				case 1:
					u.ID = int32(v)
				case 2:
					u.Name = string(s)
				case 3:
					u.Meta = append(u.Meta, dict(s))
				case 4:
					u.Events = append(u.Events, event(s))
				case 5:
					var l V1Life
					each(s, func(n int, v uint64, s []byte) {
						if n == 1 {
							l.T = fl(v)
						} else {
							l.Type = int32(v)
						}
					})
					u.Life = append(u.Life, l)
				case 6:
					u.Pos = append(u.Pos, vec(s))
				case 7:
					u.Rot = append(u.Rot, vec(s))
				}
			})
			r.Subjects = append(r.Subjects, u)
		case 4:
			r.Events = append(r.Events, event(s))
		}
	})
	return r, nil
}

// V1File wraps a protobuf message; the count is normally 1.
func V1File(proto []byte, count uint32, level int) []byte {
	var b bytes.Buffer
	fw, _ := flate.NewWriter(&b, level)
	fw.Write(proto)
	fw.Close()
	return V1Wrap(b.Bytes(), count, uint64(b.Len()))
}

// V1Wrap builds the container around a deflated body.
func V1Wrap(body []byte, count uint32, size uint64) []byte {
	w := &wr{}
	w.u8(1)
	w.u32(count)
	w.u64(size)
	w.b = append(w.b, body...)
	return w.b
}

func v1meta(m [][2]string) Meta {
	var out Meta
	for _, kv := range m {
		f, err := strconv.ParseFloat(kv[1], 32)
		if err == nil {
			out = append(out, KV{kv[0], Val{Kind: VF32, F: float32(f)}})
		} else {
			out = append(out, KV{kv[0], Val{Kind: VStr, S: kv[1]}})
		}
	}
	return out
}

func v1events(es []V1Event) Coll {
	c := Coll{Kind: Event, Name: "Custom Event"}
	for _, e := range es {
		x := Cap{T: float64(e.T), Name: e.Name}
		if len(e.Data) == 0 {
			x.Meta = Meta{{"value", Val{Kind: VStr, S: e.Contents}}}
		}
		for _, kv := range e.Data {
			x.Meta = append(x.Meta, KV{kv[0], Val{Kind: VStr, S: kv[1]}})
		}
		c.Caps = append(c.Caps, x)
	}
	return c
}

// Rec is the recording a version 1 file means.
func (r *V1Rec) Rec() *Rec {
	out := &Rec{ID: r.Name, Name: r.Name, Meta: v1meta(r.Meta), Colls: []Coll{v1events(r.Events)}}
	for _, s := range r.Subjects {
		sub := &Rec{ID: fmt.Sprint(s.ID), Name: s.Name, Meta: v1meta(s.Meta)}
		vec := func(kind, name string, vs []V1Vec) Coll {
			c := Coll{Kind: kind, Name: name}
			for _, v := range vs {
				c.Caps = append(c.Caps, Cap{T: float64(v.T), V: [3]float64{float64(v.X), float64(v.Y), float64(v.Z)}})
			}
			return c
		}
		life := Coll{Kind: Enum, Name: "Life Cycle", Members: []string{"START", "ENABLE", "DISABLE", "DESTROY"}}
		for _, l := range s.Life {
			life.Caps = append(life.Caps, Cap{T: float64(l.T), I: int(l.Type)})
		}
		sub.Colls = []Coll{vec(Pos, "Position", s.Pos), vec(Euler, "Rotation", s.Rot), v1events(s.Events), life}
		out.Recs = append(out.Recs, sub)
	}
	return out
}

func (r *V1Rec) String() string { return "v1 " + r.Rec().String() }

// Keys lists the sorted keys of a block.
func (m Meta) Keys() []string {
	var k []string
	for _, kv := range m {
		k = append(k, kv.K)
	}
	sort.Strings(k)
	return k
}
