package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// perms lists all permutations of 0..n-1.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

var perms5 = perms(5)
var perms3 = perms(3)

func permEncs(e []encoding.Encoder, p []int) []encoding.Encoder {
	var out []encoding.Encoder
	for _, i := range p {
		out = append(out, e[i])
	}
	return out
}

func subsetEncs(e []encoding.Encoder, mask int) []encoding.Encoder {
	out := []encoding.Encoder{}
	for i := range e {
		if mask>>uint(i)&1 == 1 {
			out = append(out, e[i])
		}
	}
	return out
}

// kindsRec holds the kinds of mask (bits in the order of Order), spread over
// the tree in the given way.
func kindsRec(mask, way int) *Rec {
	all := []Coll{
		{Kind: Event, Name: "e", Caps: []Cap{{T: 1, Name: "n1", Meta: Meta{{"k1", Val{Kind: VInt, I: 1}}}}, {T: 2, Name: "n2", Meta: Meta{{"k2", Val{Kind: VStr, S: "v"}}, {"k1", Val{Kind: VBool, B: true}}}}}},
		{Kind: Pos, Name: "p", Caps: []Cap{{T: 1, V: [3]float64{1, 2, 3}}, {T: 2, V: [3]float64{4, 5, 7}}, {T: 4, V: [3]float64{-4, 0, 7.5}}}},
		{Kind: Euler, Name: "r", Caps: []Cap{{T: 1, V: [3]float64{10, 20, 30}}, {T: 2, V: [3]float64{40, 350, 0.25}}}},
		{Kind: Enum, Name: "s", Members: []string{"A", "B"}, Caps: []Cap{{T: 1, I: 1}, {T: 3, I: 0}}},
		{Kind: Float, Name: "f", Caps: []Cap{{T: 1, V: [3]float64{1.5}}, {T: 2, V: [3]float64{-2.5}}}},
	}
	r := &Rec{ID: "r", Name: "root", Recs: []*Rec{{ID: "c", Name: "child", Recs: []*Rec{{ID: "g", Name: "grand"}}}, {ID: "d", Name: "second"}}}
	nodes := []*Rec{r, r.Recs[0], r.Recs[0].Recs[0], r.Recs[1]}
	for i := range all {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		put := func(n int) {
			x := all[i]
			x.Name = fmt.Sprint(x.Name, n)
			if x.Kind == Enum {
				x.Members = []string{fmt.Sprint("A", n), "B"}
			}
			nodes[n].Colls = append(nodes[n].Colls, x)
		}
		switch way {
		case 0:
			put(0)
		case 1:
			put(i % 4)
			put((i + 1) % 4)
		case 2:
			put(3 - i%4)
			put(3)
		case 3:
			for n := range nodes {
				put(n)
			}
		}
	}
	if way == 2 {
		for _, n := range nodes {
			for i, j := 0, len(n.Colls)-1; i < j; i, j = i+1, j-1 {
				n.Colls[i], n.Colls[j] = n.Colls[j], n.Colls[i]
			}
		}
	}
	return r
}

// tagEnc is an encoder of the application's own, wrapping a library encoder.
type tagEnc struct {
	inner   encoding.Encoder
	sig     string
	version uint
	accept  func(name string) bool
	got     *[]string
	errOut  error
	lenient bool // decodes whatever it is given
}

func (t tagEnc) Accepts(s format.CaptureCollection) bool {
	return t.inner.Accepts(s) && (t.accept == nil || t.accept(s.Name()))
}
func (t tagEnc) Signature() string { return t.sig }
func (t tagEnc) Version() uint     { return t.version }
func (t tagEnc) Encode(cs []format.CaptureCollection) ([]byte, [][]byte, error) {
	if t.errOut != nil {
		return nil, nil, t.errOut
	}
	for _, c := range cs {
		if t.got != nil {
			*t.got = append(*t.got, c.Name())
		}
	}
	h, b, err := t.inner.Encode(cs)
	return append([]byte(t.sig+"\n"), h...), b, err
}
func (t tagEnc) Decode(name string, header, data []byte, times []float64) (format.CaptureCollection, error) {
	pre := t.sig + "\n"
	if i := bytes.IndexByte(header, '\n'); t.lenient && i >= 0 {
		pre = string(header[:i+1])
	}
	if !strings.HasPrefix(string(header), pre) {
		return nil, fmt.Errorf("encoder %s was given header %q", t.sig, header)
	}
	return t.inner.Decode(name, header[len(pre):], data, times)
}

func readWith(c *eng.Ctx, encs []encoding.Encoder, file []byte) (rec format.Recording, n int, err error) {
	c.NoPanic("read", func() { rec, n, err = rapio.NewReader(encs, bytes.NewReader(file)).Read() })
	return
}

func writeWith(c *eng.Ctx, encs []encoding.Encoder, r format.Recording, compress bool) (file []byte, err error) {
	var b bytes.Buffer
	c.NoPanic("write", func() { _, err = rapio.NewWriter(encs, compress, &b, rapio.Raw64).Write(r) })
	return b.Bytes(), err
}

// mustReadWith expects success and equality.
func mustReadWith(c *eng.Ctx, encs []encoding.Encoder, file []byte, want *Rec) {
	rec, _, err := readWith(c, encs, file)
	if err != nil {
		c.Fail("read failed: %v", err)
	}
	Same(c, "read back recording differs", want, Complete(c, rec), nil)
}

func init() {
	tech := func(i int) Tech {
		return Tech{Pos: byte(i % 4), Euler: byte(i / 4 % 3), Float: byte(i / 12 % 3), Time: byte(i / 36 % 3)}
	}
	reg(&eng.Check{
		ID: "C05", Level: "model_checking",
		Assumptions: []string{"encoders are the library's five, in full precision where results must be exact, plus application-defined encoders wrapping them"},
		Phases: []eng.Phase{
			{Name: "orders", Bound: "all 120 encoder orders of the writer x all 32 sets of used kinds x all 120 encoder orders of the reader", Body: func(c *eng.Ctx) {
				wp := perms5[c.Free(120)]
				mask := c.Free(32)
				rp := perms5[c.Free(120)]
				way := 1
				if c.Tier == "thorough" {
					way = c.Free(4)
				}
				m := kindsRec(mask, way)
				c.Describe(func() string { return fmt.Sprint("writer order ", wp, " kinds ", mask, " reader order ", rp) })
				file, err := writeWith(c, permEncs(Encs(Full), wp), m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				mustReadWith(c, permEncs(Encs(Full), rp), file, m)
				c.State(file, fmt.Sprint(rp))
			}},
			{Name: "subsets", Bound: "all sets of used kinds x all sets of encoders the reader has x 4 ways of spreading the kinds over the tree x compressed or not", Body: func(c *eng.Ctx) {
				mask := c.Free(32)
				have := c.Free(32)
				way := c.Free(4)
				comp := c.Free(2) == 1
				m := kindsRec(mask, way)
				c.Describe(func() string { return fmt.Sprint("kinds ", mask, " reader has ", have, " spread ", way) })
				// the writer has all, or exactly those needed
				we := Encs(Full)
				if c.Free(2) == 1 {
					we = subsetEncs(we, mask)
				}
				file, err := writeWith(c, we, m.Real(), comp)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				re := subsetEncs(Encs(Full), have)
				switch c.Free(3) {
				case 1: // encoders listed twice
					re = append(re, subsetEncs(Encs(Tech{Pos: 3, Euler: 2, Float: 2}), have)...)
				case 2: // an unrelated encoder
					re = append([]encoding.Encoder{tagEnc{inner: Encs(Full)[1], sig: "x", version: 7}}, re...)
				}
				if mask&^have == 0 {
					mustReadWith(c, re, file, m)
				} else {
					rec, _, err := readWith(c, re, file)
					if err == nil {
						c.Fail("the file uses kinds %05b, the reader has %05b: no error", mask, have)
					}
					if rec != nil {
						c.Fail("a failed read returned a recording")
					}
				}
				c.State(mask, have, way, file)
			}},
			{Name: "reader techniques", Bound: "all 108 technique combinations of the writer x all 36 technique combinations the reader is configured with", Body: func(c *eng.Ctx) {
				wt := tech(c.Free(108))
				rt := tech(c.Free(36))
				m := kindsRec(31, c.Free(2)*2+1)
				c.Describe(func() string { return techStr(wt) + " read with " + techStr(rt) })
				file, _ := MustWrite(c, m.Real(), wt)
				a, _, err := readWith(c, Encs(wt), file)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				b, _, err := readWith(c, Encs(rt), file)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				ma := Complete(c, a)
				Same(c, "result depends on the reader's technique", ma, Complete(c, b), nil)
				Same(c, "techniques do not travel with the streams", m, ma, Resolution(wt))
				c.State(file, techStr(rt))
			}},
			{Name: "versions", Bound: "files of encoder versions {0,1,2,127,128,300} read with encoders of versions {0,1,2,127,128,300}, with other encoders around", Body: func(c *eng.Ctx) {
				vs := []uint{0, 1, 2, 127, 128, 300}
				fv, rv := vs[c.Free(len(vs))], vs[c.Free(len(vs))]
				fv2, rv2 := vs[c.Free(3)], vs[c.Free(3)]
				m := kindsRec(3, c.Free(4))
				mk := func(v, v2 uint) []encoding.Encoder {
					es := []encoding.Encoder{tagEnc{inner: Encs(Full)[0], sig: "ev", version: v2}, tagEnc{inner: Encs(Full)[1], sig: "po", version: v}}
					if c.Free(2) == 1 {
						es[0], es[1] = es[1], es[0]
					}
					return es
				}
				c.Describe(func() string { return fmt.Sprint("file versions ", fv, fv2, " reader versions ", rv, rv2) })
				file, err := writeWith(c, mk(fv, fv2), m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				re := mk(rv, rv2)
				if rv >= fv && rv2 >= fv2 {
					mustReadWith(c, re, file, m)
				} else {
					rec, _, err := readWith(c, re, file)
					if err == nil || rec != nil {
						c.Fail("file of encoder versions %d,%d was read by encoders of versions %d,%d", fv, fv2, rv, rv2)
					}
				}
				c.State(file, rv, rv2)
			}},
			{Name: "first accepting", Bound: "all trees of <= 3 recordings with <= 2 collections each out of {position x, position y, event}, 4 encoders with overlapping acceptance in all 24 orders, reader orders of all 24", Body: func(c *eng.Ctx) {
				g := &Gen{c: c}
				m := g.SmallTree(3, func(r *Rec, i int) {
					n := c.Free(3)
					for k := 0; k < n; k++ {
						x := Coll{Kind: Pos, Name: "x", Caps: []Cap{{T: 1, V: [3]float64{1, float64(i), float64(k)}}}}
						switch c.Free(3) {
						case 1:
							x.Name = "y"
						case 2:
							x = Coll{Kind: Event, Name: "x", Caps: []Cap{{T: 1, Name: r.ID, Meta: Meta{{r.ID, Val{Kind: VInt, I: int32(k)}}}}}}
						}
						r.Colls = append(r.Colls, x)
					}
				})
				var wp, rp []int
				p4 := perms(4)
				wp = p4[c.Free(24)]
				if c.Tier == "thorough" {
					rp = p4[c.Free(24)]
				} else {
					rp = p4[c.Dev(24)]
				}
				firstAccepting(c, m, wp, rp)
			}, Quick: 0, Thor: 0},
			{Name: "lists", Bound: "all lists of at most 6 (thorough 7) collections out of {position x, position y, event}, in the root or a child, 4 encoders with overlapping acceptance in all 24 orders: each is given what it is the first to accept", Body: func(c *eng.Ctx) {
				max := 6
				if c.Tier == "thorough" {
					max = 7
				}
				n := 3 + c.Free(max-2)
				m := &Rec{ID: "r"}
				at := m
				if c.Free(2) == 1 {
					at = &Rec{ID: "s"}
					m.Recs = []*Rec{at}
				}
				for k := 0; k < n; k++ {
					x := Coll{Kind: Pos, Name: "x", Caps: []Cap{{T: 1, V: [3]float64{1, 0, float64(k)}}}}
					switch c.Free(3) {
					case 1:
						x.Name = "y"
					case 2:
						x = Coll{Kind: Event, Name: "x", Caps: []Cap{{T: 1, Name: fmt.Sprint(k)}}}
					}
					at.Colls = append(at.Colls, x)
				}
				firstAccepting(c, m, perms(4)[c.Free(24)], []int{0, 1, 2, 3})
			}},
			sizesPhase(2000, 10000, ", 5 rotations of the writer's encoders, extra encoders, the reader's reversed", func(c *eng.Ctx, m *Rec) {
				rot := c.Free(5)
				e := Encs(Full)
				w := append(append([]encoding.Encoder{}, e[rot:]...), e[:rot]...)
				w = append(w, Encs(Tech{Pos: 3, Euler: 2, Float: 2})...)
				file, err := writeWith(c, w, m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				rd := []encoding.Encoder{tagEnc{inner: e[1], sig: "x", version: 7}, e[4], e[3], e[2], e[1], e[0]}
				mustReadWith(c, rd, file, m)
				c.State(file)
			}),
			{Name: "same signature", Bound: "all trees of at most 3 recordings with 0 to 2 positions out of {x, y, z} each, 3 encoders of one signature, for x in 16 bits, for x and y in full, and for all in 32 bits, in all 6 orders: each position is stored in the technique of the first that accepts it", Body: func(c *eng.Ctx) {
				g := &Gen{c: c}
				m := g.SmallTree(3, func(r *Rec, i int) {
					n := c.Free(3)
					for k := 0; k < n; k++ {
						r.Colls = append(r.Colls, Coll{Kind: Pos, Name: []string{"x", "y", "z"}[c.Free(3)], Caps: []Cap{{T: 1, V: [3]float64{0.1, float64(i), float64(k)}}, {T: 2, V: [3]float64{1e-3, 7, float64(k)}}, {T: 3, V: [3]float64{11, 7.7, 3}}}})
					}
				})
				order := perms(3)[c.Free(6)]
				techs := []byte{2, 0, 1}
				accepts := []func(s string) bool{func(s string) bool { return s == "x" }, func(s string) bool { return s != "z" }, func(s string) bool { return true }}
				mk := func() (out []encoding.Encoder) {
					for _, i := range order {
						out = append(out, tagEnc{inner: Encs(Tech{Pos: techs[i]})[1], sig: "p", accept: accepts[i]})
					}
					return
				}
				c.Describe(func() string { return fmt.Sprint("order ", order, " ", m.String()) })
				file, err := writeWith(c, mk(), m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				rec, _, err := readWith(c, mk()[:1], file)
				if err != nil {
					c.Fail("read failed: %v", err)
				}
				got := Complete(c, rec)
				ns, gs := nodes(m), nodes(got)
				for i := range ns {
					for k, x := range ns[i].Colls {
						for _, e := range order {
							if accepts[e](x.Name) {
								Same(c, fmt.Sprintf("position %q of order %v", x.Name, order), &Rec{Colls: []Coll{x}}, &Rec{Colls: []Coll{gs[i].Colls[k]}}, Resolution(Tech{Pos: techs[e]}))
								break
							}
						}
					}
				}
				c.State(file)
			}},
			{Name: "near misses", Bound: "files and readers whose encoders' signatures look alike (case, blanks, prefixes, one byte, homoglyphs, 40 lengths) or whose versions are next to a power of two: read exactly when the signature is the same and the version new enough", Body: func(c *eng.Ctx) {
				fs, rs, other := "po", "po", ""
				fv, rv := uint(1), uint(1)
				if c.Free(2) == 0 {
					fs, rs = lookalikes(c)
					if c.Free(2) == 1 {
						fs, rs = rs, fs
					}
					other = []string{"", fs}[c.Free(2)]
				} else {
					near := func() uint {
						if k := c.Free(14); k < 12 {
							return uint(1)<<[]uint{7, 8, 15, 16, 31, 32}[k/2] - uint(k%2)
						} else if k == 12 {
							return 1
						}
						return 1 << 63
					}
					fv, rv = near(), near()
				}
				c.Describe(func() string {
					return fmt.Sprintf("written by %q %d, read by %q %d (and %q)", fs, fv, rs, rv, other)
				})
				m := kindsRec(3, c.Free(4))
				pos := Encs(Full)[1]
				file, err := writeWith(c, []encoding.Encoder{Encs(Full)[0], tagEnc{inner: pos, sig: fs, version: fv}}, m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				re := []encoding.Encoder{tagEnc{inner: pos, sig: rs, version: rv, lenient: true}, Encs(Full)[0]}
				if other != "" {
					re = append(re, tagEnc{inner: pos, sig: other, version: fv})
				}
				if fs == rs && rv >= fv || other == fs {
					mustReadWith(c, re, file, m)
				} else if rec, _, err := readWith(c, re, file); err == nil || rec != nil {
					c.Fail("an encoder other than the writer's was used")
				}
				c.State(file, rs, rv)
			}},
			{Name: "older twins", Bound: "2 encoders of one signature and versions 1 to 3 on the reader's side, file versions 1 to 3: read exactly when one of them is new enough", Body: func(c *eng.Ctx) {
				fv := uint(1 + c.Free(3))
				a, b := uint(1+c.Free(3)), uint(1+c.Free(3))
				m := kindsRec(3, c.Free(4))
				mk := func(v uint) encoding.Encoder { return tagEnc{inner: Encs(Full)[1], sig: "po", version: v} }
				c.Describe(func() string { return fmt.Sprint("file version ", fv, " reader versions ", a, b) })
				file, err := writeWith(c, []encoding.Encoder{Encs(Full)[0], mk(fv)}, m.Real(), false)
				if err != nil {
					c.Fail("write failed: %v", err)
				}
				re := []encoding.Encoder{mk(a), Encs(Full)[0], mk(b)}
				if a >= fv || b >= fv {
					mustReadWith(c, re, file, m)
				} else if rec, _, err := readWith(c, re, file); err == nil || rec != nil {
					c.Fail("a file of encoder version %d was read by encoders of versions %d and %d", fv, a, b)
				}
				c.State(file, a, b)
			}},
			{Name: "many encoders", Bound: "1 to 20 and 2^k-1, 2^k, 2^k+1 up to 1025 encoders of the application's own, each used, with signatures of up to 300 bytes and versions up to 2^63: read back, in reverse order, and counted", Body: manyEncoders},
			{Name: "foreign files", Bound: "files of the reference encoder listing the encoders in all 120 orders, all 32 sets of kinds, read with Load (when it has the encoders) and in 2 reader orders", Body: func(c *eng.Ctx) {
				p := perms5[c.Free(120)]
				mask := c.Free(32)
				m := kindsRec(mask, c.Free(4))
				var order []string
				for _, i := range p {
					order = append(order, Order[i])
				}
				file := Encode(m, Tech{Compress: c.Free(2) == 1}, order).Bytes()
				c.Describe(func() string { return fmt.Sprint("file order ", order, " kinds ", mask) })
				mustReadWith(c, Encs(Tech{Pos: 2, Euler: 1, Float: 1}), file, m)
				mustReadWith(c, permEncs(Encs(Full), []int{4, 3, 2, 1, 0}), file, m)
				var rec format.Recording
				var err error
				c.NoPanic("Load", func() { rec, _, err = rapio.Load(bytes.NewReader(file)) })
				if mask&16 == 0 { // Load has no float encoder
					if err != nil {
						c.Fail("Load failed: %v", err)
					}
					Same(c, "Load differs", m, Complete(c, rec), nil)
				} else if err == nil && Diff(m, Complete(c, rec), nil) != "" || err != nil && rec != nil {
					c.Fail("Load of a file with float streams gave a wrong recording")
				}
				c.State(file)
			}},
			{Name: "encoder errors", Bound: "an encoder that fails to encode, at each position among 3, makes the write fail", Body: func(c *eng.Ctx) {
				bad := c.Free(3)
				m := kindsRec(7, c.Free(4))
				es := []encoding.Encoder{}
				for i := 0; i < 3; i++ {
					t := tagEnc{inner: Encs(Full)[i], sig: fmt.Sprint("s", i)}
					if i == bad {
						t.errOut = errors.New("cannot encode")
					}
					es = append(es, t)
				}
				es = permEncs(es, perms3[c.Free(6)])
				_, err := writeWith(c, es, m.Real(), c.Free(2) == 1)
				if err == nil {
					c.Fail("encoder %d failed and the write reports success", bad)
				}
				c.State(bad)
			}},
		},
	})
}

// firstAccepting writes with 4 encoders of overlapping acceptance in order wp,
// checks what each was given, and reads with order rp.
func firstAccepting(c *eng.Ctx, m *Rec, wp, rp []int) {
	isX := func(n string) bool { return n == "x" }
	var got [4][]string
	accepts := []func(kind, name string) bool{
		func(k, n string) bool { return k == Pos && n == "x" },
		func(k, n string) bool { return k == Pos },
		func(k, n string) bool { return k == Event },
		func(k, n string) bool { return k == Event && n == "x" },
	}
	mk := func(rec bool) []encoding.Encoder {
		e := Encs(Full)
		t := []tagEnc{{inner: e[1], sig: "px", accept: isX}, {inner: e[1], sig: "p"}, {inner: e[0], sig: "e"}, {inner: e[0], sig: "ex", accept: isX}}
		var out []encoding.Encoder
		for i := range t {
			if rec {
				t[i].got = &got[i]
			}
			out = append(out, t[i])
		}
		return out
	}
	c.Describe(func() string { return fmt.Sprint("writer order ", wp, " reader order ", rp, " ", m.String()) })
	file, err := writeWith(c, permEncs(mk(true), wp), m.Real(), false)
	if err != nil {
		c.Fail("write failed: %v", err)
	}
	// expectation
	var want [4]map[string]int
	var walk func(r *Rec)
	walk = func(r *Rec) {
		for _, x := range r.Colls {
			for _, i := range wp {
				if accepts[i](x.Kind, x.Name) {
					if want[i] == nil {
						want[i] = map[string]int{}
					}
					want[i][x.Name]++
					break
				}
			}
		}
		for _, s := range r.Recs {
			walk(s)
		}
	}
	walk(m)
	for i := range got {
		g := map[string]int{}
		for _, n := range got[i] {
			g[n]++
		}
		if fmt.Sprint(g) != fmt.Sprint(want[i]) && len(g)+len(want[i]) > 0 {
			c.Fail("encoder %d of order %v was given collections %v, the ones it is the first to accept are %v", i, wp, g, want[i])
		}
	}
	mustReadWith(c, permEncs(mk(false), rp), file, m)
	c.State(file, fmt.Sprint(rp))
}

// manyEncoders writes and reads with many encoders, each of which is used.
func manyEncoders(c *eng.Ctx) {
	ns := []int{}
	for i := 1; i <= 20; i++ {
		ns = append(ns, i)
	}
	for _, p := range []int{32, 64, 128, 256, 512, 1024} {
		ns = append(ns, p-1, p, p+1)
	}
	n := ns[c.Free(len(ns))]
	sigLen := []int{0, 120, 300}[c.Free(3)]
	ver := c.Free(65)
	if n > 20 && ver%16 != 0 {
		c.Skip()
	}
	comp := c.Free(2) == 1
	m := &Rec{ID: "r", Recs: []*Rec{{ID: "s"}}}
	var w, rd []encoding.Encoder
	for i := 0; i < n; i++ {
		name := fmt.Sprint("coll", i)
		e := tagEnc{inner: Encs(Full)[i%5], sig: fmt.Sprint("sig", i, rep(sigLen)), version: uint(i), accept: func(s string) bool { return s == name }}
		if ver < 64 {
			e.version = 1<<uint(ver) - 1 + uint(i%2)
		} else {
			e.version = 1 << 62
		}
		w = append(w, e)
		rd = append([]encoding.Encoder{e}, rd...)
		x := oneColl(Order[i%5], 2)
		x.Name = name
		at := m
		if i%2 == 1 {
			at = m.Recs[0]
		}
		at.Colls = append(at.Colls, x)
	}
	c.Describe(func() string {
		return fmt.Sprintf("%d encoders, signatures of %d bytes more, versions about 2^%d", n, sigLen, ver)
	})
	var b bytes.Buffer
	var wn int
	var err error
	c.NoPanic("write", func() { wn, err = rapio.NewWriter(w, comp, &b, rapio.Raw64).Write(m.Real()) })
	if err != nil {
		c.Fail("write failed: %v", err)
	}
	rec, rn, err := readWith(c, rd, b.Bytes())
	if err != nil {
		c.Fail("read failed: %v", err)
	}
	Same(c, "read back recording differs", m, Complete(c, rec), nil)
	if rn != wn || !comp && wn != b.Len() {
		c.Fail("wrote %d bytes, %d in memory, read %d", wn, b.Len(), rn)
	}
	c.State(b.Bytes())
}
