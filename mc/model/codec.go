package model

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"io"
	"math"
)

// An independent implementation of the version 2 layout, written from the
// documented layout; it shares no code with the library.

// ------------------------------------------------------------------ primitives

type wr struct{ b []byte }

func (w *wr) u8(x byte) { w.b = append(w.b, x) }
func (w *wr) uv(x uint64) {
	for x >= 0x80 {
		w.b = append(w.b, byte(x)|0x80)
		x >>= 7
	}
	w.b = append(w.b, byte(x))
}
func (w *wr) u16(x uint16)  { w.b = append(w.b, byte(x), byte(x>>8)) }
func (w *wr) u32(x uint32)  { w.b = append(w.b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }
func (w *wr) u64(x uint64)  { w.u32(uint32(x)); w.u32(uint32(x >> 32)) }
func (w *wr) f64(x float64) { w.u64(math.Float64bits(x)) }
func (w *wr) f32(x float32) { w.u32(math.Float32bits(x)) }
func (w *wr) str(s string)  { w.uv(uint64(len(s))); w.b = append(w.b, s...) }
func (w *wr) bytes(s []byte) {
	w.uv(uint64(len(s)))
	w.b = append(w.b, s...)
}

type rd struct {
	b   []byte
	i   int
	err error
}

func (r *rd) fail(f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}
func (r *rd) take(n uint64) []byte {
	if r.err != nil {
		return nil
	}
	if n > uint64(len(r.b)-r.i) {
		r.fail("need %d bytes at %d, have %d", n, r.i, len(r.b)-r.i)
		return nil
	}
	s := r.b[r.i : r.i+int(n)]
	r.i += int(n)
	return s
}
func (r *rd) u8() byte {
	s := r.take(1)
	if r.err != nil {
		return 0
	}
	return s[0]
}
func (r *rd) uv() uint64 {
	var x uint64
	for s := uint(0); ; s += 7 {
		if s > 63 {
			r.fail("varint too long")
			return 0
		}
		b := r.u8()
		if r.err != nil {
			return 0
		}
		if s == 63 && b > 1 {
			r.fail("varint overflow")
			return 0
		}
		x |= uint64(b&0x7f) << s
		if b < 0x80 {
			return x
		}
	}
}
func (r *rd) count(min uint64) int {
	n := r.uv()
	if r.err == nil && min > 0 && n > uint64(len(r.b)-r.i)/min {
		r.fail("count %d exceeds data", n)
	}
	if r.err != nil {
		return 0
	}
	return int(n)
}
func (r *rd) u32() uint32 {
	s := r.take(4)
	if r.err != nil {
		return 0
	}
	return uint32(s[0]) | uint32(s[1])<<8 | uint32(s[2])<<16 | uint32(s[3])<<24
}
func (r *rd) u16() uint16 {
	s := r.take(2)
	if r.err != nil {
		return 0
	}
	return uint16(s[0]) | uint16(s[1])<<8
}
func (r *rd) u64() uint64  { l := r.u32(); h := r.u32(); return uint64(l) | uint64(h)<<32 }
func (r *rd) f64() float64 { return math.Float64frombits(r.u64()) }
func (r *rd) f32() float32 { return math.Float32frombits(r.u32()) }
func (r *rd) str() string  { return string(r.take(r.uv())) }
func (r *rd) bytes() []byte {
	return append([]byte{}, r.take(r.uv())...)
}
func (r *rd) strs() []string {
	n := r.count(1)
	out := make([]string, 0, n)
	for i := 0; i < n && r.err == nil; i++ {
		out = append(out, r.str())
	}
	return out
}
func (w *wr) strs(a []string) {
	w.uv(uint64(len(a)))
	for _, s := range a {
		w.str(s)
	}
}

// -------------------------------------------------------------- metadata values

var elemCode = map[VK]byte{VStr: 0, VInt: 1, VF32: 2, VVec2: 6, VVec3: 7, VBlock: 11, VTime: 12}

// Code is the type code of the value.
func (v Val) Code() byte {
	switch v.Kind {
	case VStr:
		return 0
	case VInt:
		return 1
	case VF32:
		return 2
	case VBool:
		if v.B {
			return 3
		}
		return 4
	case VByte:
		return 5
	case VVec2:
		return 6
	case VVec3:
		return 7
	case VBlock:
		return 11
	case VTime:
		return 12
	case VBoolArr:
		return 16
	case VBytes:
		return 18
	case VArr:
		return 13 + elemCode[v.Elem]
	}
	panic("code")
}

func (w *wr) val(v Val) {
	switch v.Kind {
	case VStr:
		w.str(v.S)
	case VInt:
		w.u32(uint32(v.I))
	case VF32:
		w.f32(v.F)
	case VBool:
	case VByte:
		w.u8(v.By)
	case VVec2:
		w.f64(v.V[0])
		w.f64(v.V[1])
	case VVec3:
		w.f64(v.V[0])
		w.f64(v.V[1])
		w.f64(v.V[2])
	case VBlock:
		ks := make([]string, len(v.M))
		for i := range v.M {
			ks[i] = v.M[i].K
		}
		w.strs(ks)
		for i := range v.M {
			w.u8(v.M[i].V.Code())
			w.val(v.M[i].V)
		}
	case VTime:
		w.u64(uint64(v.T))
	case VBoolArr, VBytes:
		w.bytes(v.Raw)
	case VArr:
		w.uv(uint64(len(v.Arr)))
		for _, e := range v.Arr {
			w.val(e)
		}
	}
}

func (r *rd) val(code byte) Val {
	switch code {
	case 0:
		return Val{Kind: VStr, S: r.str()}
	case 1:
		return Val{Kind: VInt, I: int32(r.u32())}
	case 2:
		return Val{Kind: VF32, F: r.f32()}
	case 3:
		return Val{Kind: VBool, B: true}
	case 4:
		return Val{Kind: VBool}
	case 5:
		return Val{Kind: VByte, By: r.u8()}
	case 6:
		return Val{Kind: VVec2, V: [3]float64{r.f64(), r.f64()}}
	case 7:
		return Val{Kind: VVec3, V: [3]float64{r.f64(), r.f64(), r.f64()}}
	case 11:
		ks := r.strs()
		var m Meta
		seen := map[string]int{}
		for _, k := range ks {
			v := r.val(r.u8())
			if r.err != nil {
				break
			}
			if j, ok := seen[k]; ok {
				m[j].V = v
				continue
			}
			seen[k] = len(m)
			m = append(m, KV{k, v})
		}
		return Val{Kind: VBlock, M: m}
	case 12:
		return Val{Kind: VTime, T: int64(r.u64())}
	case 16:
		return Val{Kind: VBoolArr, Raw: r.bytes()}
	case 18:
		return Val{Kind: VBytes, Raw: r.bytes()}
	case 13, 14, 15, 19, 20, 24, 25:
		v := Val{Kind: VArr}
		for k, c := range elemCode {
			if c == code-13 {
				v.Elem = k
			}
		}
		n := r.count(1)
		for i := 0; i < n && r.err == nil; i++ {
			v.Arr = append(v.Arr, r.val(code-13))
		}
		return v
	}
	r.fail("unknown metadata type code %d", code)
	return Val{}
}

// ----------------------------------------------------------------------- files

// Techniques a file is written with (indices as in the format).
type Tech struct {
	Time, Pos, Euler, Float byte
	Compress                bool
}

// Full is the lossless configuration.
var Full = Tech{}

func bits(v, start, dur float64, n int) uint64 {
	cur, inc := start+dur/2, dur/4
	var out uint64
	for i := 0; i < n; i++ {
		if v < cur {
			cur -= inc
		} else {
			out |= 1 << uint(i)
			cur += inc
		}
		inc /= 2
	}
	return out
}

func unbits(b uint64, start, dur float64, n int) float64 {
	cur, inc := start+dur/2, dur/4
	for i := 0; i < n; i++ {
		if b>>uint(i)&1 == 1 {
			cur += inc
		} else {
			cur -= inc
		}
		inc /= 2
	}
	return cur
}

func (w *wr) times(tech byte, caps []Cap) {
	w.u8(tech)
	w.uv(uint64(len(caps)))
	switch tech {
	case 0:
		for _, c := range caps {
			w.f64(c.T)
		}
	case 1:
		for _, c := range caps {
			w.f32(float32(c.T))
		}
	case 2:
		if len(caps) == 0 {
			return
		}
		start := math.Inf(1)
		gap := math.Inf(-1)
		for i, c := range caps {
			start = math.Min(start, c.T)
			if i > 0 {
				gap = math.Max(gap, c.T-caps[i-1].T)
			}
		}
		w.f32(float32(start))
		if len(caps) == 1 {
			return
		}
		w.f32(float32(gap))
		at := start
		for _, c := range caps[1:] {
			b := bits(c.T-at, 0, gap, 16)
			w.u16(uint16(b))
			at += unbits(b, 0, gap, 16)
		}
	}
}

func (r *rd) times() []float64 {
	tech := r.u8()
	var out []float64
	switch tech {
	case 0:
		n := r.count(8)
		for i := 0; i < n; i++ {
			out = append(out, r.f64())
		}
	case 1:
		n := r.count(4)
		for i := 0; i < n; i++ {
			out = append(out, float64(r.f32()))
		}
	case 2:
		n := r.count(1)
		if n == 0 {
			return nil
		}
		at := float64(r.f32())
		out = append(out, at)
		if n == 1 {
			return out
		}
		gap := float64(r.f32())
		for i := 1; i < n && r.err == nil; i++ {
			at += unbits(uint64(r.u16()), 0, gap, 16)
			out = append(out, at)
		}
	default:
		r.fail("unknown time technique %d", tech)
	}
	return out
}

func octDepth(tech byte) int {
	if tech == 2 {
		return 16
	}
	return 8
}

func (w *wr) body(t Tech, c Coll, ix *encIndex) {
	switch c.Kind {
	case Pos:
		w.u8(t.Pos)
		switch t.Pos {
		case 0:
			for _, x := range c.Caps {
				for k := 0; k < 3; k++ {
					w.f64(x.V[k])
				}
			}
		case 1:
			for _, x := range c.Caps {
				for k := 0; k < 3; k++ {
					w.f32(float32(x.V[k]))
				}
			}
		case 2, 3:
			w.oct(octDepth(t.Pos), c.Caps)
		}
	case Euler:
		w.u8(t.Euler)
		switch t.Euler {
		case 0:
			for _, x := range c.Caps {
				for k := 0; k < 3; k++ {
					w.f64(x.V[k])
					w.u16(0) // padding of the established layout
				}
			}
		case 1:
			for _, x := range c.Caps {
				for k := 0; k < 3; k++ {
					w.f32(float32(x.V[k]))
				}
			}
		case 2:
			for _, x := range c.Caps {
				for k := 0; k < 3; k++ {
					a := x.V[k] - 360*math.Floor(x.V[k]/360)
					if len(c.Caps) == 1 {
						w.f32(float32(a))
					} else {
						w.u16(uint16(bits(a, 0, 360, 16)))
					}
				}
			}
		}
	case Float:
		w.u8(t.Float)
		switch t.Float {
		case 0:
			for _, x := range c.Caps {
				w.f64(x.V[0])
			}
		case 1:
			for _, x := range c.Caps {
				w.f32(float32(x.V[0]))
			}
		case 2:
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, x := range c.Caps {
				if x.V[0] < lo {
					lo = x.V[0]
				}
				if x.V[0] > hi {
					hi = x.V[0]
				}
			}
			w.f32(float32(lo))
			w.f32(float32(hi))
			for _, x := range c.Caps {
				w.u16(uint16(bits(x.V[0], lo, hi-lo, 16)))
			}
		}
	case Enum:
		w.uv(uint64(len(c.Members)))
		for _, m := range c.Members {
			w.uv(uint64(ix.members.get(m)))
		}
		for _, x := range c.Caps {
			w.uv(uint64(x.I))
		}
	case Event:
		for _, x := range c.Caps {
			w.uv(uint64(ix.names.get(x.Name)))
			w.uv(uint64(len(x.Meta)))
			for _, kv := range x.Meta {
				w.uv(uint64(ix.keys.get(kv.K)))
			}
			for _, kv := range x.Meta {
				w.u8(kv.V.Code())
				w.val(kv.V)
			}
		}
	}
}

func (w *wr) oct(depth int, caps []Cap) {
	if len(caps) == 0 {
		return
	}
	if len(caps) == 1 {
		for k := 0; k < 3; k++ {
			w.f32(float32(caps[0].V[k]))
		}
		return
	}
	var lo, hi [3]float64
	for k := 0; k < 3; k++ {
		lo[k], hi[k] = math.Inf(1), math.Inf(-1)
		for i := 1; i < len(caps); i++ {
			d := caps[i].V[k] - caps[i-1].V[k]
			if d > hi[k] {
				hi[k] = d
			}
			if d < lo[k] {
				lo[k] = d
			}
		}
	}
	for k := 0; k < 3; k++ {
		w.f32(float32(lo[k]))
	}
	for k := 0; k < 3; k++ {
		w.f32(float32(hi[k]))
	}
	at := caps[0].V
	for k := 0; k < 3; k++ {
		w.f32(float32(at[k]))
	}
	for _, c := range caps[1:] {
		var below [3]uint64
		for k := 0; k < 3; k++ {
			ctr := (lo[k] + hi[k]) / 2
			inc := (hi[k] - lo[k]) / 4
			v := c.V[k] - at[k]
			for i := 0; i < depth; i++ {
				if v < ctr {
					below[k] |= 1 << uint(i)
					ctr -= inc
				} else {
					ctr += inc
				}
				inc /= 2
			}
			at[k] += ctr
		}
		for by := 0; by < depth/8; by++ {
			w.u8(byte(below[2] >> uint(8*by)))
			w.u8(byte(below[0] >> uint(8*by)))
			w.u8(byte(below[1] >> uint(8*by)))
		}
	}
}

func (r *rd) oct(depth int, times []float64) []Cap {
	if len(times) == 0 {
		return nil
	}
	if len(times) == 1 {
		return []Cap{{T: times[0], V: [3]float64{float64(r.f32()), float64(r.f32()), float64(r.f32())}}}
	}
	var lo, hi, at [3]float64
	for k := 0; k < 3; k++ {
		lo[k] = float64(r.f32())
	}
	for k := 0; k < 3; k++ {
		hi[k] = float64(r.f32())
	}
	for k := 0; k < 3; k++ {
		at[k] = float64(r.f32())
	}
	out := []Cap{{T: times[0], V: at}}
	for i := 1; i < len(times) && r.err == nil; i++ {
		var below [3]uint64
		for by := 0; by < depth/8; by++ {
			below[2] |= uint64(r.u8()) << uint(8*by)
			below[0] |= uint64(r.u8()) << uint(8*by)
			below[1] |= uint64(r.u8()) << uint(8*by)
		}
		for k := 0; k < 3; k++ {
			ctr := (lo[k] + hi[k]) / 2
			inc := (hi[k] - lo[k]) / 4
			for b := 0; b < depth; b++ {
				if below[k]>>uint(b)&1 == 1 {
					ctr -= inc
				} else {
					ctr += inc
				}
				inc /= 2
			}
			at[k] += ctr
		}
		out = append(out, Cap{T: times[i], V: at})
	}
	return out
}

type idxer struct {
	m map[string]int
	l []string
}

func (x *idxer) get(s string) int {
	if x.m == nil {
		x.m = map[string]int{}
	}
	if i, ok := x.m[s]; ok {
		return i
	}
	x.m[s] = len(x.l)
	x.l = append(x.l, s)
	return x.m[s]
}

type encIndex struct{ members, names, keys idxer }

// Field is a structural field of an encoded file (offset in the uncompressed
// image), used for mutations.
type Field struct {
	Off, Len int
	Kind     string
}

// Image is an encoded file before compression: Head + Body (Body is what gets
// deflated), with the location of structural fields in Body and Head.
type Image struct {
	Head, Body []byte
	Compress   bool
	Tech       Tech
}

// Bytes assembles the file.
func (im Image) Bytes() []byte {
	out := append([]byte{}, im.Head...)
	if !im.Compress {
		return append(append(out, 0), im.Body...)
	}
	var b bytes.Buffer
	fw, _ := flate.NewWriter(&b, 1)
	fw.Write(im.Body)
	fw.Close()
	return append(append(out, 1), b.Bytes()...)
}

// Encode lays a recording out in version 2. order lists the encoder
// signatures in the order in which they shall appear (only used ones are
// written).
func Encode(rec *Rec, t Tech, order []string) Image {
	used := map[string]bool{}
	var walk func(r *Rec)
	walk = func(r *Rec) {
		for _, c := range r.Colls {
			used[c.Kind] = true
		}
		for _, c := range r.Recs {
			walk(c)
		}
	}
	walk(rec)
	var sigs []string
	eix := map[string]int{}
	for _, s := range order {
		if used[s] {
			eix[s] = len(sigs)
			sigs = append(sigs, s)
		}
	}
	head := &wr{}
	head.u8(2)
	head.strs(sigs)
	for range sigs {
		head.uv(0)
	}
	ix := &encIndex{}
	var keys idxer
	tree := &wr{}
	meta := func(w *wr, m Meta) {
		w.uv(uint64(len(m)))
		for _, kv := range m {
			w.uv(uint64(keys.get(kv.K)))
		}
		for _, kv := range m {
			w.u8(kv.V.Code())
			w.val(kv.V)
		}
	}
	var enc func(r *Rec)
	enc = func(r *Rec) {
		w := tree
		w.str(r.ID)
		w.str(r.Name)
		meta(w, r.Meta)
		w.uv(uint64(len(r.Colls)))
		for _, c := range r.Colls {
			w.uv(uint64(eix[c.Kind]))
			w.str(c.Name)
			w.times(t.Time, c.Caps)
			b := &wr{}
			b.body(t, c, ix)
			w.bytes(b.b)
		}
		w.uv(uint64(len(r.Refs)))
		for _, x := range r.Refs {
			w.str(x.Name)
			w.str(x.URI)
			w.uv(x.Size)
			meta(w, x.Meta)
		}
		w.uv(uint64(len(r.Bins)))
		for _, x := range r.Bins {
			w.str(x.Name)
			w.uv(uint64(len(x.Data)))
			meta(w, x.Meta)
			w.b = append(w.b, x.Data...)
		}
		w.uv(uint64(len(r.Recs)))
		for _, c := range r.Recs {
			enc(c)
		}
	}
	enc(rec)
	body := &wr{}
	for _, s := range sigs {
		h := &wr{}
		switch s {
		case Enum:
			h.strs(ix.members.l)
		case Event:
			h.strs(ix.names.l)
			h.strs(ix.keys.l)
		}
		body.bytes(h.b)
	}
	body.strs(keys.l)
	body.b = append(body.b, tree.b...)
	return Image{Head: head.b, Body: body.b, Compress: t.Compress, Tech: t}
}

// Decoded is what the reference decoder found.
type Decoded struct {
	Rec        *Rec
	Sigs       []string
	Compressed bool
	Uncomp     int // bytes of the uncompressed image
	Left       int // bytes after the recording (uncompressed files only)
	TimeTech   []byte
	BodyTech   []byte
}

// Decode reads a complete version 2 file, strictly.
func Decode(file []byte) (*Decoded, error) { return decode(file, true) }

// DecodeLenient reads a version 2 file the way any reader may: surplus bytes
// where a length allows them, unknown compression flags (meaning none), repeated
// metadata keys (the last counts), unused malformed headers and whatever follows
// in a compressed body are ignored.
func DecodeLenient(file []byte) (*Decoded, error) { return decode(file, false) }

func decode(file []byte, strict bool) (*Decoded, error) {
	r := &rd{b: file}
	if v := r.u8(); r.err == nil && v != 2 {
		return nil, fmt.Errorf("version %d", v)
	}
	sigs := r.strs()
	for range sigs {
		if v := r.uv(); v != 0 {
			r.fail("encoder version %d", v)
		}
	}
	flag := r.u8()
	if r.err != nil {
		return nil, r.err
	}
	d := &Decoded{Sigs: sigs}
	d.Uncomp = r.i
	if flag == 1 {
		d.Compressed = true
		body, err := io.ReadAll(flate.NewReader(bytes.NewReader(file[r.i:])))
		if err != nil && strict {
			return nil, fmt.Errorf("deflate: %v", err)
		}
		r = &rd{b: body}
		d.Uncomp += len(body)
	} else if flag == 0 || !strict {
		r = &rd{b: file[r.i:]}
		d.Uncomp += len(r.b)
	} else {
		return nil, fmt.Errorf("compression flag %d", flag)
	}
	headers := make([]*rd, len(sigs))
	for i := range sigs {
		headers[i] = &rd{b: r.bytes()}
	}
	hstr := make([][][]string, len(sigs))
	for i, s := range sigs {
		switch s {
		case Enum:
			hstr[i] = [][]string{headers[i].strs()}
		case Event:
			hstr[i] = [][]string{headers[i].strs(), headers[i].strs()}
		}
		if headers[i].err != nil && strict {
			return nil, fmt.Errorf("header of %s: %v", s, headers[i].err)
		}
		if headers[i].i != len(headers[i].b) && strict {
			return nil, fmt.Errorf("header of %s: surplus bytes", s)
		}
	}
	keys := r.strs()
	pick := func(l []string, i uint64) string {
		if i >= uint64(len(l)) {
			r.fail("index %d of %d", i, len(l))
			return ""
		}
		return l[i]
	}
	meta := func(r *rd, keys []string) Meta {
		n := r.count(1)
		ids := make([]uint64, n)
		for i := range ids {
			ids[i] = r.uv()
		}
		var m Meta
		seen := map[string]bool{}
		for _, id := range ids {
			k := pick(keys, id)
			if seen[k] && strict {
				r.fail("duplicate metadata key")
			}
			v := r.val(r.u8())
			if seen[k] {
				for j := range m {
					if m[j].K == k {
						m[j].V = v
					}
				}
			} else {
				m = append(m, KV{k, v})
			}
			seen[k] = true
			if r.err != nil {
				return nil
			}
		}
		return m
	}
	var dec func(depth int) *Rec
	dec = func(depth int) *Rec {
		out := &Rec{ID: r.str(), Name: r.str()}
		out.Meta = meta(r, keys)
		n := r.count(1)
		for i := 0; i < n && r.err == nil; i++ {
			e := r.uv()
			if r.err == nil && e >= uint64(len(sigs)) {
				r.fail("encoder index %d", e)
			}
			if r.err != nil {
				return out
			}
			c := Coll{Kind: sigs[e], Name: r.str()}
			if r.err == nil && r.i < len(r.b) {
				d.TimeTech = append(d.TimeTech, r.b[r.i])
			}
			if headers[e].err != nil {
				r.fail("header of %s: %v", c.Kind, headers[e].err)
			}
			ts := r.times()
			b := &rd{b: r.bytes()}
			if r.err != nil {
				return out
			}
			if c.Kind == Pos || c.Kind == Euler || c.Kind == Float {
				if len(b.b) > 0 {
					d.BodyTech = append(d.BodyTech, b.b[0])
				}
			}
			switch c.Kind {
			case Pos, Euler, Float:
				tech := b.u8()
				switch {
				case c.Kind == Pos && tech == 0:
					for _, t := range ts {
						c.Caps = append(c.Caps, Cap{T: t, V: [3]float64{b.f64(), b.f64(), b.f64()}})
					}
				case (c.Kind == Pos || c.Kind == Euler) && tech == 1:
					for _, t := range ts {
						c.Caps = append(c.Caps, Cap{T: t, V: [3]float64{float64(b.f32()), float64(b.f32()), float64(b.f32())}})
					}
				case c.Kind == Pos && (tech == 2 || tech == 3):
					c.Caps = b.oct(octDepth(tech), ts)
				case c.Kind == Euler && tech == 0:
					for _, t := range ts {
						x := Cap{T: t}
						for k := 0; k < 3; k++ {
							x.V[k] = b.f64()
							b.take(2)
						}
						c.Caps = append(c.Caps, x)
					}
				case c.Kind == Euler && tech == 2:
					for _, t := range ts {
						x := Cap{T: t}
						for k := 0; k < 3; k++ {
							if len(ts) == 1 {
								x.V[k] = float64(b.f32())
							} else {
								x.V[k] = unbits(uint64(b.u16()), 0, 360, 16)
							}
						}
						c.Caps = append(c.Caps, x)
					}
				case c.Kind == Float && tech == 0:
					for _, t := range ts {
						c.Caps = append(c.Caps, Cap{T: t, V: [3]float64{b.f64()}})
					}
				case c.Kind == Float && tech == 1:
					for _, t := range ts {
						c.Caps = append(c.Caps, Cap{T: t, V: [3]float64{float64(b.f32())}})
					}
				case c.Kind == Float && tech == 2:
					lo, hi := b.f32(), b.f32()
					for _, t := range ts {
						c.Caps = append(c.Caps, Cap{T: t, V: [3]float64{unbits(uint64(b.u16()), float64(lo), float64(hi-lo), 16)}})
					}
				default:
					r.fail("%s technique %d", c.Kind, tech)
				}
			case Enum:
				n := b.count(1)
				for i := 0; i < n; i++ {
					c.Members = append(c.Members, pick(hstr[e][0], b.uv()))
				}
				for _, t := range ts {
					c.Caps = append(c.Caps, Cap{T: t, I: int(b.uv())})
				}
			case Event:
				for _, t := range ts {
					x := Cap{T: t, Name: pick(hstr[e][0], b.uv())}
					x.Meta = meta(b, hstr[e][1])
					c.Caps = append(c.Caps, x)
				}
			default:
				r.fail("unknown encoder %q", c.Kind)
			}
			if b.err != nil {
				r.fail("stream %q: %v", c.Name, b.err)
			} else if b.i != len(b.b) && strict {
				r.fail("stream %q: %d surplus bytes", c.Name, len(b.b)-b.i)
			}
			out.Colls = append(out.Colls, c)
		}
		n = r.count(1)
		for i := 0; i < n && r.err == nil; i++ {
			x := Ref{Name: r.str(), URI: r.str(), Size: r.uv()}
			x.Meta = meta(r, keys)
			out.Refs = append(out.Refs, x)
		}
		n = r.count(1)
		for i := 0; i < n && r.err == nil; i++ {
			x := Bin{Name: r.str()}
			sz := r.uv()
			x.Meta = meta(r, keys)
			x.Data = append([]byte{}, r.take(sz)...)
			out.Bins = append(out.Bins, x)
		}
		n = r.count(1)
		for i := 0; i < n && r.err == nil; i++ {
			out.Recs = append(out.Recs, dec(depth+1))
		}
		return out
	}
	d.Rec = dec(0)
	if r.err != nil {
		return nil, r.err
	}
	d.Left = len(r.b) - r.i
	if d.Compressed && d.Left != 0 && strict {
		return nil, errors.New("surplus bytes in compressed body")
	}
	d.Uncomp -= d.Left
	return d, nil
}
