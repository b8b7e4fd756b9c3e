package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// upgradeTech is what the upgrade command writes with.
var upgradeTech = Tech{Time: 2, Pos: 3, Euler: 2, Compress: true}

// scratch is a directory of this execution.
func scratch(c *eng.Ctx) (dir string, done func()) {
	dir, err := os.MkdirTemp("", "rapmc-")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// chronological sorts every collection by time.
func chronological(r *Rec) bool {
	for _, c := range r.Colls {
		if !sort.SliceIsSorted(c.Caps, func(i, j int) bool { return c.Caps[i].T < c.Caps[j].T }) {
			return false
		}
	}
	for _, s := range r.Recs {
		if !chronological(s) {
			return false
		}
	}
	return true
}

// shapeOnly compares everything but times and values of captures.
func shapeOnly() *Tol { return &Tol{Coll: func(string, Coll, Coll) string { return "" }} }

// upgradeCase upgrades a file twice and compares the results.
func upgradeCase(c *eng.Ctx, file []byte, want *Rec, full bool) {
	tol := shapeOnly()
	if full {
		tol = Resolution(upgradeTech)
	}
	dir, done := scratch(c)
	defer done()
	in := put(dir, "in.rap", file)
	var out bytes.Buffer
	if err := app(c, nil, &out, "upgrade", "--file", in); err != nil {
		c.Fail("upgrading fails: %v", err)
	}
	if b, _ := os.ReadFile(in); !bytes.Equal(b, file) {
		c.Fail("upgrading changed the input file")
	}
	d, err := Decode(out.Bytes())
	if err != nil {
		c.Fail("the upgraded file is not a version 2 file: %v", err)
	}
	got, _ := MustRead(c, out.Bytes())
	Same(c, "the upgraded file holds something else", want, got, tol)
	Same(c, "the upgraded file decodes to something else", d.Rec, got, Near(1e-9))
	in2 := put(dir, "again.rap", out.Bytes())
	var out2 bytes.Buffer
	if err := app(c, nil, &out2, "upgrade", "--file", in2); err != nil {
		c.Fail("upgrading the result again fails: %v", err)
	}
	got2, _ := MustRead(c, out2.Bytes())
	Same(c, "upgrading the result again changes it", got, got2, tol)
	c.State(out.Bytes())
}

func init() {
	files := func() (fs []*FileCase) {
		for i, f := range FamilyV1() {
			if i%2 == 0 {
				fs = append(fs, f)
			}
		}
		return
	}
	reg(&eng.Check{
		ID: "C14", Level: "model_checking",
		Assumptions: []string{"times and values are compared for chronological recordings of finite numbers, which is what the techniques are specified for; otherwise everything but times and values is compared"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "all chronological messages of finite numbers that differ from a rich base in at most D details, upgraded twice", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				r := V1Gen(c, true, true)
				c.Describe(r.String)
				upgradeCase(c, V1File(r.Proto(), 1, 1), r.Rec(), true)
			}},
			{Name: "any numbers", Bound: "all messages that differ in at most D details, any number and time included", Quick: 1, Thor: 1, Body: func(c *eng.Ctx) {
				r := V1Gen(c, false, false)
				c.Describe(r.String)
				upgradeCase(c, V1File(r.Proto(), 1, 1), r.Rec(), false)
			}},
			{Name: "parts", Bound: "0-2 of every part, one subject", Body: func(c *eng.Ctx) {
				r := v1small(c, 1)
				c.Describe(r.String)
				upgradeCase(c, V1File(r.Proto(), 1, 1), r.Rec(), true)
			}},
			v1SizesPhase(5000, 70000, func(c *eng.Ctx, r *V1Rec) {
				upgradeCase(c, V1File(r.Proto(), 1, 1), r.Rec(), true)
			}),
			{Name: "values", Bound: "all sequences of 4 captures over 5 values x 3 gaps, positions or rotations", Body: func(c *eng.Ctx) {
				vs := []float32{0, 1, -3.75, 1e6, 0.001}
				gaps := []float32{0, 0.25, 40}
				r := &V1Rec{Name: "v", Subjects: []V1Subject{{ID: 1, Life: []V1Life{{1, 0}, {2, 3}}}}}
				s := &r.Subjects[0]
				t := float32(5)
				rot := c.Free(2) == 1
				for i := 0; i < 4; i++ {
					v := vs[c.Free(5)]
					if rot {
						s.Rot = append(s.Rot, V1Vec{t, v, -v, 359.9 - v})
					} else {
						s.Pos = append(s.Pos, V1Vec{t, v, -v, 7 - v})
					}
					if i < 3 {
						t += gaps[c.Free(3)]
					}
				}
				c.Describe(r.String)
				upgradeCase(c, V1File(r.Proto(), 1, 1), r.Rec(), true)
			}},
			{Name: "bad input", Bound: "every truncation of every version 1 file of the family, wrong counts, other files, a missing file and a directory", Body: func(c *eng.Ctx) {
				fs := files()
				dir, done := scratch(c)
				defer done()
				var in string
				switch c.Free(4) {
				case 0:
					f := fs[c.Free(len(fs))]
					n := c.Free(len(f.Raw))
					c.Describe(func() string { return fmt.Sprintf("%s cut at %d of %d", f.Name, n, len(f.Raw)) })
					in = put(dir, "in.rap", f.Raw[:n])
					want := f.Want
					var out bytes.Buffer
					if err := app(c, nil, &out, "upgrade", "--file", in); err == nil {
						// only the redundant end of the compression may be missing
						got, _ := MustRead(c, out.Bytes())
						Same(c, "a cut file is upgraded to something else", want, got, shapeOnly())
					} else if out.Len() > 0 {
						c.Fail("upgrading a cut file fails and still writes %d bytes", out.Len())
					}
					c.State(f.Name, n, out.Len())
					return
				case 1:
					f := fs[c.Free(len(fs))]
					k := c.Free(3)
					in = put(dir, "in.rap", V1File(f.V1R.Proto(), []uint32{0, 2, 1 << 31}[k], 1))
				case 2:
					bs := [][]byte{nil, {3}, {0}, []byte("{\"id\":\"x\"}"), raw(VBytes, 300).Raw}
					in = put(dir, "in.rap", bs[c.Free(len(bs))])
				case 3:
					in = []string{filepath.Join(dir, "missing"), dir, ""}[c.Free(3)]
				}
				c.Describe(func() string { return in })
				var out bytes.Buffer
				if err := app(c, nil, &out, "upgrade", "--file", in); err == nil {
					c.Fail("upgrading something that is not a recording succeeds")
				}
				if out.Len() > 0 {
					c.Fail("a failed upgrade wrote %d bytes", out.Len())
				}
				c.State(in)
			}},
			{Name: "bad output", Bound: "every version 1 file of the family, the output fails at every call or after every number of bytes", Body: func(c *eng.Ctx) {
				fs := files()
				f := fs[c.Free(len(fs))]
				dir, done := scratch(c)
				defer done()
				in := put(dir, "in.rap", f.Raw)
				counter := &badDest{call: -1, budget: -1}
				if err := app(c, nil, counter, "upgrade", "--file", in); err != nil {
					c.Skip()
				}
				d := &badDest{call: -1, budget: -1}
				if c.Free(2) == 0 {
					d.call = c.Free(counter.calls)
					d.partial = c.Free(3)
				} else {
					d.budget = c.Free(len(counter.accepted))
				}
				d.once = c.Free(2) == 1
				c.Describe(func() string { return fmt.Sprintf("%s: output fails at call %d or byte %d", f.Name, d.call, d.budget) })
				err := app(c, nil, d, "upgrade", "--file", in)
				if d.failed && err == nil {
					c.Fail("the output failed and the upgrade reports success")
				}
				c.State(f.Name, d.call, d.budget, d.partial, d.once)
			}},
			{Name: "version 2 files", Bound: "every file of the version 2 family without floats: upgrading keeps it", Body: func(c *eng.Ctx) {
				fs := Family()
				f := fs[c.Free(len(fs))]
				c.Describe(func() string { return f.Name })
				var floats func(r *Rec) bool
				floats = func(r *Rec) bool {
					for _, x := range r.Colls {
						if x.Kind == Float {
							return true
						}
					}
					for _, s := range r.Recs {
						if floats(s) {
							return true
						}
					}
					return false
				}
				if floats(f.Want) {
					dir, done := scratch(c)
					defer done()
					var out bytes.Buffer
					if err := app(c, nil, &out, "upgrade", "--file", put(dir, "in", f.Raw)); err == nil {
						got, _ := MustRead(c, out.Bytes())
						Same(c, "an upgraded file with floats holds something else", f.Want, got, shapeOnly())
					}
					c.State(f.Name)
					return
				}
				upgradeCase(c, f.Raw, f.Want, true)
			}},
			{Name: "samples", Bound: "the sample files of the repository", Body: func(c *eng.Ctx) {
				fs := v1samples()
				if len(fs) == 0 {
					c.Skip()
				}
				name := fs[c.Free(len(fs))]
				b, err := os.ReadFile(name)
				if err != nil {
					panic(err)
				}
				r, err := ParseV1(b)
				if err != nil {
					panic(err)
				}
				c.Describe(func() string { return name })
				w := r.Rec()
				upgradeCase(c, b, w, chronological(w))
			}},
		},
	})
}
