package checks

import (
	"fmt"
	"io"
	"sync"

	. "github.com/recolude/rap/zzverif/model"
)

// FileCase is one small valid file and what it holds.
type FileCase struct {
	Name string
	V1   bool
	Im   Image  // version 2: before compression
	V1R  *V1Rec // version 1
	Orig *Rec   // what was put in (version 2)
	T    Tech
	Raw  []byte
	Want *Rec // what it must load to (up to rounding of the last place)
}

// Exact is the comparison for Want.
func (f *FileCase) Exact() *Tol {
	if f.V1 {
		return nil
	}
	return Near(1e-9)
}

func f2(name string, m *Rec, t Tech) *FileCase {
	im := Encode(m, t, Order)
	f := &FileCase{Name: name + " " + techStr(t), Im: im, Orig: m, T: t, Raw: im.Bytes()}
	d, err := Decode(f.Raw)
	if err != nil {
		panic("harness bug: reference decoder rejects " + f.Name + ": " + err.Error())
	}
	f.Want = d.Rec
	return f
}

func posColl(n int) Coll {
	c := Coll{Kind: Pos, Name: "pos"}
	for i := 0; i < n; i++ {
		c.Caps = append(c.Caps, Cap{T: float64(i)*1.5 + 1, V: [3]float64{float64(i*i) + 1, 2 - float64(i), 0.5 * float64(i)}})
	}
	return c
}

func eulColl(n int) Coll {
	c := Coll{Kind: Euler, Name: "rot"}
	for i := 0; i < n; i++ {
		c.Caps = append(c.Caps, Cap{T: float64(i) + 0.5, V: [3]float64{float64(i)*33 + 1, 90, 270.25}})
	}
	return c
}

func fltColl(n int) Coll {
	c := Coll{Kind: Float, Name: "flt"}
	for i := 0; i < n; i++ {
		c.Caps = append(c.Caps, Cap{T: float64(i), V: [3]float64{float64(i)*2.5 - 1}})
	}
	return c
}

func enmColl(n int) Coll {
	c := Coll{Kind: Enum, Name: "enm", Members: []string{"On", "Off"}}
	for i := 0; i < n; i++ {
		c.Caps = append(c.Caps, Cap{T: float64(i), I: (i + 1) % 2})
	}
	return c
}

func evtColl(n int) Coll {
	c := Coll{Kind: Event, Name: "evt"}
	for i := 0; i < n; i++ {
		x := Cap{T: float64(i) + 1, Name: []string{"go", "stop"}[i%2]}
		if i != 1 {
			x.Meta = Meta{{"k", Val{Kind: VInt, I: int32(i)}}}
		}
		if i == 2 {
			x.Meta = append(x.Meta, KV{"k2", Val{Kind: VStr, S: "s"}})
		}
		c.Caps = append(c.Caps, x)
	}
	return c
}

func oneColl(kind string, n int) Coll {
	switch kind {
	case Pos:
		return posColl(n)
	case Euler:
		return eulColl(n)
	case Float:
		return fltColl(n)
	case Enum:
		return enmColl(n)
	}
	return evtColl(n)
}

var familyOnce sync.Once
var familyList []*FileCase
var v1Once sync.Once
var v1List []*FileCase

// kindVals is one small value per metadata code.
func kindVals() []Val {
	return []Val{
		{Kind: VStr, S: "str"}, {Kind: VInt, I: -5}, {Kind: VF32, F: 1.5}, {Kind: VBool, B: true}, {Kind: VBool}, {Kind: VByte, By: 200},
		{Kind: VVec2, V: [3]float64{1, 2}}, {Kind: VVec3, V: [3]float64{1, 2, 3}},
		{Kind: VBlock, M: Meta{{"a", Val{Kind: VInt, I: 1}}, {"b", Val{Kind: VBlock, M: Meta{{"c", Val{Kind: VStr, S: "d"}}}}}}},
		{Kind: VTime, T: 1600000000000000},
		arr(VStr, 2), arr(VInt, 2), arr(VF32, 1), arr(VVec2, 1), arr(VVec3, 1), arr(VTime, 1), arr(VBlock, 2),
		raw(VBoolArr, 3), raw(VBytes, 3),
	}
}

// Family lists small valid version 2 files covering every section, count,
// technique and metadata code.
func Family() []*FileCase {
	familyOnce.Do(func() {
		add := func(name string, m *Rec, t Tech) { familyList = append(familyList, f2(name, m, t)) }
		both := func(name string, m *Rec, t Tech) {
			add(name, m, t)
			t.Compress = true
			add(name, m, t)
		}
		both("empty", &Rec{}, Full)
		both("named", &Rec{ID: "id", Name: "a name"}, Full)
		vs := kindVals()
		for i := 0; i < len(vs); i += 3 {
			var m Meta
			for k := i; k < i+3 && k < len(vs); k++ {
				m = append(m, KV{fmt.Sprint("k", k), vs[k]})
			}
			add(fmt.Sprint("metadata ", i), &Rec{ID: "i", Meta: m}, Full)
		}
		for _, n := range []int{0, 1, 3} {
			for _, t := range []Tech{{}, {Pos: 1, Time: 1}, {Pos: 2, Time: 2}, {Pos: 3, Time: 2}} {
				add(fmt.Sprint("positions ", n), &Rec{ID: "i", Colls: []Coll{posColl(n)}}, t)
			}
			for _, t := range []Tech{{}, {Euler: 1, Time: 1}, {Euler: 2, Time: 2}} {
				add(fmt.Sprint("rotations ", n), &Rec{ID: "i", Colls: []Coll{eulColl(n)}}, t)
			}
			for _, t := range []Tech{{}, {Float: 1, Time: 1}, {Float: 2, Time: 2}} {
				add(fmt.Sprint("floats ", n), &Rec{ID: "i", Colls: []Coll{fltColl(n)}}, t)
			}
			both(fmt.Sprint("enums ", n), &Rec{ID: "i", Colls: []Coll{enmColl(n)}}, Full)
			both(fmt.Sprint("events ", n), &Rec{ID: "i", Colls: []Coll{evtColl(n)}}, Full)
		}
		both("references", &Rec{Refs: []Ref{{Name: "n", URI: "uri", Size: 300, Meta: Meta{{"rk", Val{Kind: VInt, I: 3}}}}, {Name: "m", URI: "v", Size: 1}}}, Full)
		both("binaries", &Rec{Bins: []Bin{{Name: "n", Data: []byte("some data"), Meta: Meta{{"bk", Val{Kind: VInt, I: 3}}}}, {Name: "m", Data: []byte{}}, {Name: "l", Data: []byte{9}}}}, Full)
		tree := &Rec{ID: "r", Meta: Meta{{"k", Val{Kind: VStr, S: "v"}}}, Recs: []*Rec{
			{ID: "a", Name: "A", Colls: []Coll{evtColl(2), posColl(1)}, Recs: []*Rec{{ID: "b", Meta: Meta{{"k", Val{Kind: VInt, I: 2}}, {"l", Val{Kind: VBool}}}, Colls: []Coll{enmColl(2)}}}},
			{ID: "c", Name: "C", Colls: []Coll{posColl(2), evtColl(1)}, Bins: []Bin{{Name: "x", Data: []byte("yz")}}},
		}}
		both("tree", tree, Full)
		mixed := &Rec{ID: "r", Name: "mixed", Colls: []Coll{evtColl(2), posColl(2), eulColl(2), enmColl(2), fltColl(2)}, Recs: []*Rec{{ID: "a", Colls: []Coll{fltColl(1), posColl(3)}}}}
		both("mixed", mixed, Full)
		both("mixed", mixed, Tech{Time: 1, Pos: 1, Euler: 1, Float: 1})
		both("mixed", mixed, Tech{Time: 2, Pos: 2, Euler: 2, Float: 2})
		both("mixed", mixed, Tech{Time: 2, Pos: 3, Euler: 2, Float: 2})
		both("long texts", &Rec{ID: rep(130), Name: rep(200), Bins: []Bin{{Name: "b", Data: raw(VBytes, 140).Raw}}}, Full)
	})
	return familyList
}

// FamilyV1 lists small valid version 1 files.
func FamilyV1() []*FileCase {
	v1Once.Do(func() {
		add := func(name string, r *V1Rec) {
			for _, lvl := range []int{1, 0} {
				v1List = append(v1List, &FileCase{Name: fmt.Sprint("v1 ", name, " level ", lvl), V1: true, V1R: r, Raw: V1File(r.Proto(), 1, lvl), Want: r.Rec()})
			}
		}
		add("empty", &V1Rec{})
		add("named", &V1Rec{Name: "nm", Meta: [][2]string{{"k", "v"}, {"n", "1.5"}}})
		add("events", &V1Rec{Name: "e", Events: []V1Event{{T: 1, Name: "go", Contents: "c"}, {T: 2, Name: "st", Data: [][2]string{{"a", "b"}, {"c", "1"}}}}})
		add("subjects", &V1Rec{Name: "s", Subjects: []V1Subject{
			{ID: 1, Name: "one", Meta: [][2]string{{"k", "v"}}, Pos: []V1Vec{{1, 2, 3, 4}, {2, 3, 4, 5}}, Rot: []V1Vec{{1, 0, 90, 180}}},
			{ID: 2, Name: "two", Life: []V1Life{{1, 0}, {2, 3}}, Events: []V1Event{{T: 1, Name: "x", Contents: "y"}}},
			{ID: 3},
		}})
	})
	return v1List
}

// AllFiles is both families.
func AllFiles() []*FileCase { return append(append([]*FileCase{}, Family()...), FamilyV1()...) }

var _ = io.EOF
