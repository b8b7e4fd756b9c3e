// Package model is the reference: plain recording trees, their comparison,
// their conversion to and from the library's types, an independent version 2
// codec (codec.go), an independent version 1 encoder (v1.go) and bounded
// generators (gen.go).
package model

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// VK is the kind of a metadata value.
type VK int

const (
	VStr VK = iota
	VInt
	VF32
	VBool
	VByte
	VVec2
	VVec3
	VBlock
	VTime
	VArr     // array of Elem
	VBoolArr // booleans
	VBytes   // binary
)

// Val is a metadata value.
type Val struct {
	Kind VK
	S    string
	I    int32
	F    float32
	B    bool
	By   byte
	V    [3]float64
	T    int64 // microseconds
	M    Meta
	Elem VK
	Arr  []Val
	Raw  []byte
}

// KV is a metadata entry.
type KV struct {
	K string
	V Val
}

// Meta is an unordered block of unique keys.
type Meta []KV

// Cap is a capture.
type Cap struct {
	T    float64
	V    [3]float64 // position, euler; float in V[0]
	I    int        // enum
	Name string     // event
	Meta Meta       // event
}

// Collection kinds.
const (
	Event = "recolude.event"
	Pos   = "recolude.position"
	Euler = "recolude.euler"
	Enum  = "recolude.enum"
	Float = "recolude.float"
)

// Coll is a capture collection.
type Coll struct {
	Kind    string
	Name    string
	Members []string
	Caps    []Cap
}

// Bin is a binary.
type Bin struct {
	Name string
	Data []byte
	Meta Meta
}

// Ref is a binary reference.
type Ref struct {
	Name, URI string
	Size      uint64
	Meta      Meta
}

// Rec is a recording.
type Rec struct {
	ID, Name string
	Meta     Meta
	Colls    []Coll
	Refs     []Ref
	Bins     []Bin
	Recs     []*Rec
}

// Clone is a deep copy of the tree's structure.
func (r *Rec) Clone() *Rec {
	n := *r
	n.Colls = append([]Coll{}, r.Colls...)
	for i := range n.Colls {
		n.Colls[i].Caps = append([]Cap{}, n.Colls[i].Caps...)
	}
	n.Refs = append([]Ref{}, r.Refs...)
	n.Bins = append([]Bin{}, r.Bins...)
	n.Recs = nil
	for _, c := range r.Recs {
		n.Recs = append(n.Recs, c.Clone())
	}
	return &n
}

// -------------------------------------------------------------- to the library

func (m Meta) Real() metadata.Block {
	mp := make(map[string]metadata.Property, len(m))
	for _, kv := range m {
		mp[kv.K] = kv.V.Real()
	}
	return metadata.NewBlock(mp)
}

func (v Val) Real() metadata.Property {
	switch v.Kind {
	case VStr:
		return metadata.NewStringProperty(v.S)
	case VInt:
		return metadata.NewIntProperty(int(v.I))
	case VF32:
		return metadata.NewFloat32Property(v.F)
	case VBool:
		return metadata.NewBoolProperty(v.B)
	case VByte:
		return metadata.NewByteProperty(v.By)
	case VVec2:
		return metadata.NewVector2Property(v.V[0], v.V[1])
	case VVec3:
		return metadata.NewVector3Property(v.V[0], v.V[1], v.V[2])
	case VBlock:
		return metadata.NewMetadataProperty(v.M.Real())
	case VTime:
		return metadata.NewTimeProperty(time.UnixMicro(v.T))
	case VBytes:
		return metadata.NewBinaryArrayProperty(append([]byte{}, v.Raw...))
	case VBoolArr:
		bs := make([]bool, len(v.Raw))
		for i, b := range v.Raw {
			bs[i] = b&1 == 1
		}
		return metadata.NewBoolArrayProperty(bs)
	case VArr:
		switch v.Elem {
		case VStr:
			a := make([]string, len(v.Arr))
			for i := range a {
				a[i] = v.Arr[i].S
			}
			return metadata.NewStringArrayProperty(a)
		case VInt:
			a := make([]int, len(v.Arr))
			for i := range a {
				a[i] = int(v.Arr[i].I)
			}
			return metadata.NewIntArrayProperty(a)
		case VF32:
			a := make([]float32, len(v.Arr))
			for i := range a {
				a[i] = v.Arr[i].F
			}
			return metadata.NewFloat32ArrayProperty(a)
		case VVec2:
			a := make([]vector2.Float64, len(v.Arr))
			for i := range a {
				a[i] = vector2.New(v.Arr[i].V[0], v.Arr[i].V[1])
			}
			return metadata.NewVector2ArrayProperty(a)
		case VVec3:
			a := make([]vector3.Float64, len(v.Arr))
			for i := range a {
				a[i] = vector3.New(v.Arr[i].V[0], v.Arr[i].V[1], v.Arr[i].V[2])
			}
			return metadata.NewVector3ArrayProperty(a)
		case VBlock:
			a := make([]metadata.Block, len(v.Arr))
			for i := range a {
				a[i] = v.Arr[i].M.Real()
			}
			return metadata.NewMetadataArrayProperty(a)
		case VTime:
			a := make([]time.Time, len(v.Arr))
			for i := range a {
				a[i] = time.UnixMicro(v.Arr[i].T)
			}
			return metadata.NewTimestampArrayProperty(a)
		}
	}
	panic(fmt.Sprintf("model: no property for %+v", v))
}

func (c Coll) Real() format.CaptureCollection {
	switch c.Kind {
	case Event:
		cs := make([]event.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = event.NewCapture(x.T, x.Name, x.Meta.Real())
		}
		return event.NewCollection(c.Name, cs)
	case Pos:
		cs := make([]position.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = position.NewCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return position.NewCollection(c.Name, cs)
	case Euler:
		cs := make([]euler.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = euler.NewEulerZXYCapture(x.T, x.V[0], x.V[1], x.V[2])
		}
		return euler.NewCollection(c.Name, cs)
	case Enum:
		cs := make([]enum.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = enum.NewCapture(x.T, x.I)
		}
		return enum.NewCollection(c.Name, append([]string{}, c.Members...), cs)
	case Float:
		cs := make([]float.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = float.NewCapture(x.T, x.V[0])
		}
		return float.NewCollection(c.Name, cs)
	}
	panic("model: unknown kind " + c.Kind)
}

// Real builds the library's recording.
func (r *Rec) Real() format.Recording {
	var colls []format.CaptureCollection
	for _, c := range r.Colls {
		colls = append(colls, c.Real())
	}
	var recs []format.Recording
	for _, c := range r.Recs {
		recs = append(recs, c.Real())
	}
	var bins []format.Binary
	for _, b := range r.Bins {
		bins = append(bins, rapio.NewBinary(b.Name, append([]byte{}, b.Data...), b.Meta.Real()))
	}
	var refs []format.BinaryReference
	for _, b := range r.Refs {
		refs = append(refs, rapio.NewBinaryReference(b.Name, b.URI, b.Size, b.Meta.Real()))
	}
	return format.NewRecording(r.ID, r.Name, colls, recs, r.Meta.Real(), bins, refs)
}

// ------------------------------------------------------------ from the library

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func:
		return v.IsNil()
	}
	return false
}

// FromProp reads a property through its code and data.
func FromProp(p metadata.Property) (Val, error) {
	if isNil(p) {
		return Val{}, fmt.Errorf("nil metadata value")
	}
	d := &rd{b: append([]byte{}, p.Data()...)}
	v := d.val(p.Code())
	if d.err != nil {
		return v, fmt.Errorf("metadata value (code %d) has malformed data: %v", p.Code(), d.err)
	}
	if d.i != len(d.b) {
		return v, fmt.Errorf("metadata value (code %d) has %d surplus data bytes", p.Code(), len(d.b)-d.i)
	}
	return v, nil
}

// FromBlock converts a block (sorted by key).
func FromBlock(b metadata.Block) (Meta, error) {
	var m Meta
	ks := make([]string, 0, len(b.Mapping()))
	for k := range b.Mapping() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v, err := FromProp(b.Mapping()[k])
		if err != nil {
			return nil, fmt.Errorf("key %q: %v", k, err)
		}
		m = append(m, KV{k, v})
	}
	return m, nil
}

// FromColl converts a collection, checking that its accessors agree.
func FromColl(c format.CaptureCollection) (Coll, error) {
	if isNil(c) {
		return Coll{}, fmt.Errorf("nil collection")
	}
	out := Coll{Kind: c.Signature(), Name: c.Name()}
	if ec, ok := c.(enum.Collection); ok {
		out.Members = append([]string{}, ec.EnumMembers()...)
	}
	caps := c.Captures()
	if len(caps) != c.Length() {
		return out, fmt.Errorf("collection %q: Length %d but %d captures", c.Name(), c.Length(), len(caps))
	}
	for i, cp := range caps {
		if isNil(cp) {
			return out, fmt.Errorf("collection %q: nil capture %d", c.Name(), i)
		}
		m := Cap{T: cp.Time()}
		switch x := cp.(type) {
		case event.Capture:
			m.Name = x.Name()
			b, err := FromBlock(x.Metadata())
			if err != nil {
				return out, err
			}
			m.Meta = b
		case position.Capture:
			m.V = [3]float64{x.Position().X(), x.Position().Y(), x.Position().Z()}
		case euler.Capture:
			m.V = [3]float64{x.EulerZXY().X(), x.EulerZXY().Y(), x.EulerZXY().Z()}
		case enum.Capture:
			m.I = x.Value()
		case float.Capture:
			m.V[0] = x.Value()
		default:
			return out, fmt.Errorf("collection %q: unknown capture type %T", c.Name(), cp)
		}
		if at := c.CaptureAt(i); !sameFloat(at.Time(), m.T) {
			return out, fmt.Errorf("collection %q: CaptureAt(%d) differs from Captures()[%d]", c.Name(), i, i)
		}
		out.Caps = append(out.Caps, m)
	}
	return out, nil
}

// From converts a library recording completely; it fails on missing parts.
func From(r format.Recording) (*Rec, error) {
	if isNil(r) {
		return nil, fmt.Errorf("nil recording")
	}
	out := &Rec{ID: r.ID(), Name: r.Name()}
	var err error
	if out.Meta, err = FromBlock(r.Metadata()); err != nil {
		return nil, fmt.Errorf("recording %q metadata: %v", r.ID(), err)
	}
	for _, c := range r.CaptureCollections() {
		m, err := FromColl(c)
		if err != nil {
			return nil, fmt.Errorf("recording %q: %v", r.ID(), err)
		}
		out.Colls = append(out.Colls, m)
	}
	for i, b := range r.BinaryReferences() {
		if isNil(b) {
			return nil, fmt.Errorf("recording %q: nil reference %d", r.ID(), i)
		}
		mm, err := FromBlock(b.Metadata())
		if err != nil {
			return nil, fmt.Errorf("reference %q: %v", b.Name(), err)
		}
		out.Refs = append(out.Refs, Ref{b.Name(), b.URI(), b.Size(), mm})
	}
	for i, b := range r.Binaries() {
		if isNil(b) {
			return nil, fmt.Errorf("recording %q: nil binary %d", r.ID(), i)
		}
		mm, err := FromBlock(b.Metadata())
		if err != nil {
			return nil, fmt.Errorf("binary %q: %v", b.Name(), err)
		}
		dr := b.Data()
		if isNil(dr) {
			return nil, fmt.Errorf("binary %q: nil data", b.Name())
		}
		data, err := io.ReadAll(dr)
		if err != nil {
			return nil, fmt.Errorf("binary %q: %v", b.Name(), err)
		}
		if uint64(len(data)) != b.Size() {
			return nil, fmt.Errorf("binary %q: Size %d but %d bytes", b.Name(), b.Size(), len(data))
		}
		out.Bins = append(out.Bins, Bin{b.Name(), data, mm})
	}
	for _, c := range r.Recordings() {
		m, err := From(c)
		if err != nil {
			return nil, err
		}
		out.Recs = append(out.Recs, m)
	}
	return out, nil
}

// ----------------------------------------------------------------- comparison

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// Tol tells how capture times/values may differ; nil means exactly.
type Tol struct {
	// Coll compares two collections' captures; return "" when acceptable.
	Coll func(path string, want, got Coll) string
}

// Diff returns "" when got equals want.
func Diff(want, got *Rec, tol *Tol) string { return diffRec("", want, got, tol) }

func diffRec(p string, w, g *Rec, tol *Tol) string {
	if w.ID != g.ID {
		return fmt.Sprintf("%s/id: want %q got %q", p, clipS(w.ID), clipS(g.ID))
	}
	if w.Name != g.Name {
		return fmt.Sprintf("%s/name: want %q got %q", p, clipS(w.Name), clipS(g.Name))
	}
	if d := DiffMeta(p+"/metadata", w.Meta, g.Meta); d != "" {
		return d
	}
	if len(w.Colls) != len(g.Colls) {
		return fmt.Sprintf("%s/collections: want %d got %d", p, len(w.Colls), len(g.Colls))
	}
	for i := range w.Colls {
		if d := DiffColl(fmt.Sprintf("%s/collections[%d]", p, i), w.Colls[i], g.Colls[i], tol); d != "" {
			return d
		}
	}
	if len(w.Refs) != len(g.Refs) {
		return fmt.Sprintf("%s/references: want %d got %d", p, len(w.Refs), len(g.Refs))
	}
	for i := range w.Refs {
		a, b := w.Refs[i], g.Refs[i]
		if a.Name != b.Name || a.URI != b.URI || a.Size != b.Size {
			return fmt.Sprintf("%s/references[%d]: want %q %q %d got %q %q %d", p, i, clipS(a.Name), clipS(a.URI), a.Size, clipS(b.Name), clipS(b.URI), b.Size)
		}
		if d := DiffMeta(fmt.Sprintf("%s/references[%d]/metadata", p, i), a.Meta, b.Meta); d != "" {
			return d
		}
	}
	if len(w.Bins) != len(g.Bins) {
		return fmt.Sprintf("%s/binaries: want %d got %d", p, len(w.Bins), len(g.Bins))
	}
	for i := range w.Bins {
		a, b := w.Bins[i], g.Bins[i]
		if a.Name != b.Name {
			return fmt.Sprintf("%s/binaries[%d]: want name %q got %q", p, i, clipS(a.Name), clipS(b.Name))
		}
		if !bytes.Equal(a.Data, b.Data) {
			return fmt.Sprintf("%s/binaries[%d]: data differs (%d/%d bytes)", p, i, len(a.Data), len(b.Data))
		}
		if d := DiffMeta(fmt.Sprintf("%s/binaries[%d]/metadata", p, i), a.Meta, b.Meta); d != "" {
			return d
		}
	}
	if len(w.Recs) != len(g.Recs) {
		return fmt.Sprintf("%s/recordings: want %d got %d", p, len(w.Recs), len(g.Recs))
	}
	for i := range w.Recs {
		if d := diffRec(fmt.Sprintf("%s/recordings[%d]", p, i), w.Recs[i], g.Recs[i], tol); d != "" {
			return d
		}
	}
	return ""
}

// DiffColl compares collections.
func DiffColl(p string, w, g Coll, tol *Tol) string {
	if w.Kind != g.Kind || w.Name != g.Name {
		return fmt.Sprintf("%s: want %s %q got %s %q", p, w.Kind, clipS(w.Name), g.Kind, clipS(g.Name))
	}
	if len(w.Members) != len(g.Members) {
		return fmt.Sprintf("%s: want %d enum members got %d", p, len(w.Members), len(g.Members))
	}
	for i := range w.Members {
		if w.Members[i] != g.Members[i] {
			return fmt.Sprintf("%s: enum member %d: want %q got %q", p, i, clipS(w.Members[i]), clipS(g.Members[i]))
		}
	}
	if len(w.Caps) != len(g.Caps) {
		return fmt.Sprintf("%s: want %d captures got %d", p, len(w.Caps), len(g.Caps))
	}
	for i := range w.Caps {
		a, b := w.Caps[i], g.Caps[i]
		if a.I != b.I || a.Name != b.Name {
			return fmt.Sprintf("%s/captures[%d]: want %d %q got %d %q", p, i, a.I, clipS(a.Name), b.I, clipS(b.Name))
		}
		if d := DiffMeta(fmt.Sprintf("%s/captures[%d]/metadata", p, i), a.Meta, b.Meta); d != "" {
			return d
		}
		if tol == nil {
			if !sameFloat(a.T, b.T) {
				return fmt.Sprintf("%s/captures[%d]: want time %v got %v", p, i, a.T, b.T)
			}
			for k := 0; k < 3; k++ {
				if !sameFloat(a.V[k], b.V[k]) {
					return fmt.Sprintf("%s/captures[%d]: want value %v got %v", p, i, a.V, b.V)
				}
			}
		}
	}
	if tol != nil {
		return tol.Coll(p, w, g)
	}
	return ""
}

func sortedMeta(m Meta) Meta {
	n := append(Meta{}, m...)
	sort.Slice(n, func(i, j int) bool { return n[i].K < n[j].K })
	return n
}

// DiffMeta compares blocks irrespective of order.
func DiffMeta(p string, w, g Meta) string {
	w, g = sortedMeta(w), sortedMeta(g)
	if len(w) != len(g) {
		return fmt.Sprintf("%s: want %d entries got %d", p, len(w), len(g))
	}
	for i := range w {
		if w[i].K != g[i].K {
			return fmt.Sprintf("%s: want key %q got %q", p, clipS(w[i].K), clipS(g[i].K))
		}
		if d := DiffVal(p+"/"+clipS(w[i].K), w[i].V, g[i].V); d != "" {
			return d
		}
	}
	return ""
}

// DiffVal compares values.
func DiffVal(p string, w, g Val) string {
	if w.Kind != g.Kind {
		return fmt.Sprintf("%s: want kind %d got %d", p, w.Kind, g.Kind)
	}
	bad := false
	switch w.Kind {
	case VStr:
		bad = w.S != g.S
	case VInt:
		bad = w.I != g.I
	case VF32:
		bad = math.Float32bits(w.F) != math.Float32bits(g.F) && !(w.F != w.F && g.F != g.F)
	case VBool:
		bad = w.B != g.B
	case VByte:
		bad = w.By != g.By
	case VVec2, VVec3:
		for k := 0; k < 3; k++ {
			bad = bad || !sameFloat(w.V[k], g.V[k])
		}
	case VTime:
		bad = w.T != g.T
	case VBytes, VBoolArr:
		bad = !bytes.Equal(w.Raw, g.Raw)
	case VBlock:
		return DiffMeta(p, w.M, g.M)
	case VArr:
		if w.Elem != g.Elem || len(w.Arr) != len(g.Arr) {
			return fmt.Sprintf("%s: want array of %d x kind %d got %d x kind %d", p, len(w.Arr), w.Elem, len(g.Arr), g.Elem)
		}
		for i := range w.Arr {
			if d := DiffVal(fmt.Sprintf("%s[%d]", p, i), w.Arr[i], g.Arr[i]); d != "" {
				return d
			}
		}
	}
	if bad {
		return fmt.Sprintf("%s: want %s got %s", p, w, g)
	}
	return ""
}

func clipS(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}

func (v Val) String() string {
	switch v.Kind {
	case VStr:
		return fmt.Sprintf("%q", clipS(v.S))
	case VInt:
		return fmt.Sprint(v.I)
	case VF32:
		return fmt.Sprintf("%vf", v.F)
	case VBool:
		return fmt.Sprint(v.B)
	case VByte:
		return fmt.Sprintf("byte %d", v.By)
	case VVec2:
		return fmt.Sprint(v.V[:2])
	case VVec3:
		return fmt.Sprint(v.V[:])
	case VTime:
		return fmt.Sprintf("%dus", v.T)
	case VBytes:
		return fmt.Sprintf("bytes[%d]", len(v.Raw))
	case VBoolArr:
		return fmt.Sprintf("bools[%d]", len(v.Raw))
	case VBlock:
		return v.M.String()
	case VArr:
		var s []string
		for i, e := range v.Arr {
			if i > 4 {
				s = append(s, "...")
				break
			}
			s = append(s, e.String())
		}
		return fmt.Sprintf("arr%d(%d)[%s]", v.Elem, len(v.Arr), strings.Join(s, " "))
	}
	return "?"
}

func (m Meta) String() string {
	var s []string
	for i, kv := range m {
		if i > 5 {
			s = append(s, fmt.Sprintf("...%d", len(m)))
			break
		}
		s = append(s, fmt.Sprintf("%q:%s", clipS(kv.K), kv.V))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func (c Coll) String() string {
	s := fmt.Sprintf("%s %q n=%d", strings.TrimPrefix(c.Kind, "recolude."), clipS(c.Name), len(c.Caps))
	if c.Kind == Enum {
		s += fmt.Sprintf(" members=%d", len(c.Members))
	}
	for i, x := range c.Caps {
		if i >= 3 {
			s += " .."
			break
		}
		switch c.Kind {
		case Event:
			s += fmt.Sprintf(" (%v %q %s)", x.T, clipS(x.Name), x.Meta)
		case Enum:
			s += fmt.Sprintf(" (%v %d)", x.T, x.I)
		case Float:
			s += fmt.Sprintf(" (%v %v)", x.T, x.V[0])
		default:
			s += fmt.Sprintf(" (%v %v)", x.T, x.V)
		}
	}
	return s
}

func (r *Rec) String() string {
	var s []string
	for _, c := range r.Colls {
		s = append(s, c.String())
	}
	var k []string
	for _, c := range r.Recs {
		k = append(k, c.String())
	}
	var rf []string
	for _, c := range r.Refs {
		rf = append(rf, fmt.Sprintf("%q %q %d %s", clipS(c.Name), clipS(c.URI), c.Size, c.Meta))
	}
	var bn []string
	for _, c := range r.Bins {
		bn = append(bn, fmt.Sprintf("%q %dB %s", clipS(c.Name), len(c.Data), c.Meta))
	}
	return fmt.Sprintf("rec{%q %q %s colls[%s] refs[%s] bins[%s] recs[%s]}", clipS(r.ID), clipS(r.Name), r.Meta, strings.Join(s, "; "), strings.Join(rf, "; "), strings.Join(bn, "; "), strings.Join(k, "; "))
}

// Hash is a canonical text for fingerprints.
func (r *Rec) Hash() string { return fmt.Sprintf("%+v", *r) + subHash(r) }

func subHash(r *Rec) string {
	var s strings.Builder
	for _, c := range r.Recs {
		s.WriteString("|" + c.Hash())
	}
	return s.String()
}
