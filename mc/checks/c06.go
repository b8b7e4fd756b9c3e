package checks

import (
	"bytes"
	"fmt"
	"io"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// onlyReader hides everything but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// allTechs decodes a technique combination 0..215.
func allTechs(i int) Tech {
	return Tech{Pos: byte(i % 4), Euler: byte(i / 4 % 3), Float: byte(i / 12 % 3), Time: byte(i / 36 % 3), Compress: i/108%2 == 1}
}

func init() {
	count := func(c *eng.Ctx, m *Rec, t Tech) {
		c.Describe(func() string { return techStr(t) + " " + m.String() })
		file, wn := MustWrite(c, m.Real(), t)
		if !t.Compress && wn != len(file) {
			c.Fail("write reported %d bytes and wrote %d", wn, len(file))
		}
		_, rn, err := Read(c, bytes.NewReader(file))
		if err != nil {
			c.Fail("read failed: %v", err)
		}
		if rn != wn {
			c.Fail("write reported %d bytes, read %d", wn, rn)
		}
		c.State(file, rn)
	}
	reg(&eng.Check{
		ID: "C06", Level: "model_checking",
		Assumptions: []string{"recordings as in C01; with compression only the equality of the two counts is required"},
		Phases: []eng.Phase{
			{Name: "details", Bound: "all recordings that differ from a rich base in at most D details, compressed or not", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				t := Full
				t.Compress = c.Free(2) == 1
				count(c, FullGen(c).Rec(), t)
			}},
			{Name: "techniques", Bound: "all 216 technique combinations x recordings that differ from the base in at most D counts", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				t := allTechs(c.Free(216))
				g := &Gen{c: c, Counts: true, Finite: true, Shapes: c.Tier == "thorough"}
				count(c, g.Rec(), t)
			}},
			sizesPhase(5000, 70000, ", 4 technique sets", func(c *eng.Ctx, m *Rec) {
				t := fewTechs[c.Free(len(fewTechs))]
				t.Compress = t.Time == 2
				count(c, m, t)
			}),
			destsPhase(),
			{Name: "bare", Bound: "every product of empty or short parts", Body: func(c *eng.Ctx) { count(c, bare(c), Full) }},
			{Name: "many encoders", Bound: "1 to 20 and 2^k-1, 2^k, 2^k+1 up to 1025 encoders of the application's own, each used, with signatures of up to 300 bytes and versions up to 2^63: read back, in reverse order, and counted", Body: manyEncoders},
			{Name: "streams", Bound: "all sequences of up to 3 recordings out of a menu of 8 part sets x 4 techniques written into one stream, read back one after the other from 3 kinds of source, followed by a sentinel", Body: func(c *eng.Ctx) {
				n := 1 + c.Free(3)
				src := c.Free(3)
				var b bytes.Buffer
				var recs []*Rec
				var techs []Tech
				var sizes []int
				for i := 0; i < n; i++ {
					m := &Rec{ID: fmt.Sprint("r", i), Name: "rec"}
					parts(c, m, i)
					if i > 0 {
						m.Recs = []*Rec{recs[i-1]}
					}
					t := []Tech{{}, {Pos: 1, Euler: 1, Float: 1, Time: 1}, {Pos: 2, Euler: 2, Float: 2, Time: 2}, {Pos: 3, Time: 2}}[c.Free(4)]
					before := b.Len()
					wn, err := Write(c, m.Real(), t, &b)
					if err != nil {
						c.Fail("write failed: %v", err)
					}
					if wn != b.Len()-before {
						c.Fail("write reported %d bytes and wrote %d", wn, b.Len()-before)
					}
					recs, techs, sizes = append(recs, m), append(techs, t), append(sizes, wn)
				}
				sent := []byte{0xA5, 0x5A, 2, 0, 1}
				b.Write(sent)
				c.Describe(func() string { return fmt.Sprint(n, " recordings, last: ", recs[n-1].String()) })
				var in io.Reader
				switch src {
				case 0:
					in = bytes.NewReader(b.Bytes())
				case 1:
					in = &b
				case 2:
					in = onlyReader{&b}
				}
				for i := range recs {
					var rn int
					var err error
					rec, rn, err := Read(c, in)
					if err != nil {
						c.Fail("reading recording %d of %d: %v", i, n, err)
					}
					if rn != sizes[i] {
						c.Fail("recording %d: wrote %d bytes, read reports %d", i, sizes[i], rn)
					}
					Same(c, fmt.Sprintf("recording %d of %d differs", i, n), recs[i], Complete(c, rec), Resolution(techs[i]))
				}
				rest, _ := io.ReadAll(in)
				if !bytes.Equal(rest, sent) {
					c.Fail("%d bytes are left after the last recording instead of the sentinel's %d", len(rest), len(sent))
				}
				c.State(sizes, fmt.Sprint(techs))
			}},
			{Name: "encoders", Bound: "each encoder and technique, collections of 0..5 and 127..129 captures, alone and in pairs: the stream body decodes from exactly its own bytes", Body: func(c *eng.Ctx) {
				k := c.Free(5)
				t := Tech{}
				switch k {
				case 1:
					t.Pos = byte(c.Free(4))
				case 2:
					t.Euler = byte(c.Free(3))
				case 4:
					t.Float = byte(c.Free(3))
				}
				ns := []int{0, 1, 2, 3, 4, 5, 127, 128, 129}
				g := &Gen{c: c, Finite: true}
				var colls []Coll
				for i := 0; i <= c.Free(2); i++ {
					colls = append(colls, g.Coll(Order[k], fmt.Sprint("c", i), ns[c.Free(len(ns))]))
				}
				m := &Rec{ID: "r", Colls: colls}
				c.Describe(func() string { return techStr(t) + " " + m.String() })
				real := m.Real()
				enc := Encs(t)[k]
				var header []byte
				var bodies [][]byte
				var err error
				c.NoPanic("Encode", func() { header, bodies, err = enc.Encode(real.CaptureCollections()) })
				if err != nil || len(bodies) != len(colls) {
					c.Fail("Encode: %v, %d bodies for %d collections", err, len(bodies), len(colls))
				}
				for i, x := range colls {
					var times []float64
					for _, cp := range x.Caps {
						times = append(times, cp.T)
					}
					// decode from a copy that ends exactly at the body's end, in a larger array
					big := append(append([]byte{}, bodies[i]...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
					c.NoPanic("Decode", func() {
						got, err := Encs(Tech{})[k].Decode(x.Name, header, big[:len(bodies[i]):len(bodies[i])], times)
						if err != nil {
							c.Fail("Decode: %v", err)
						}
						fc, err := FromColl(got)
						if err != nil {
							c.Fail("Decode: %v", err)
						}
						if d := DiffColl("", x, fc, Resolution(t)); d != "" {
							c.Fail("Decode: %s", d)
						}
					})
				}
				c.State(k, header, fmt.Sprint(bodies))
			}},
			{Name: "default writer", Bound: "recordings of up to 3 part sets through NewRecoludeWriter and Load: equal counts", Body: func(c *eng.Ctx) {
				g := &Gen{c: c}
				m := g.SmallTree(3, func(r *Rec, i int) { parts(c, r, i) })
				m = dropKind(m, Float)
				c.Describe(m.String)
				var b bytes.Buffer
				var wn, rn int
				var err error
				c.NoPanic("write", func() { wn, err = rapio.NewRecoludeWriter(&b).Write(m.Real()) })
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				c.NoPanic("Load", func() {
					rec, n, e := rapio.Load(&b)
					rn, err = n, e
					if e == nil {
						Same(c, "read back recording differs", m, Complete(c, rec), Resolution(Tech{Time: 2, Pos: 2, Euler: 1}))
					}
				})
				if err != nil {
					c.Fail("Load failed: %v", err)
				}
				if wn != rn {
					c.Fail("write reported %d bytes, Load %d", wn, rn)
				}
				c.State(m.Hash(), wn)
			}},
		},
	})
}

func dropKind(r *Rec, kind string) *Rec {
	n := *r
	n.Colls, n.Recs = nil, nil
	for _, c := range r.Colls {
		if c.Kind != kind {
			n.Colls = append(n.Colls, c)
		}
	}
	for _, s := range r.Recs {
		n.Recs = append(n.Recs, dropKind(s, kind))
	}
	return &n
}
