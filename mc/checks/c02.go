package checks

import (
	"fmt"
	"math"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

func strip(k string) string { return k[len("recolude."):] }

func init() {
	// roundtrip checks one recording of streams under t.
	roundtrip := func(c *eng.Ctx, m *Rec, t Tech) {
		c.Describe(func() string { return techStr(t) + " " + m.String() })
		file, _ := MustWrite(c, m.Real(), t)
		got, _ := MustRead(c, file)
		Same(c, "lossy round trip", m, got, Resolution(t))
		c.State(m.Hash(), file)
	}
	// pick a reduced technique: kind, Tech
	pick := func(c *eng.Ctx) (string, Tech) {
		t := Tech{}
		switch c.Free(7) {
		case 0:
			t.Pos = 1
			return Pos, t
		case 1:
			t.Pos = 2
			return Pos, t
		case 2:
			t.Pos = 3
			return Pos, t
		case 3:
			t.Euler = 1
			return Euler, t
		case 4:
			t.Euler = 2
			return Euler, t
		case 5:
			t.Float = 1
			return Float, t
		}
		t.Float = 2
		return Float, t
	}
	fill := func(kind string, vals []float64, rot int) Coll {
		cl := Coll{Kind: kind, Name: "s"}
		n := len(vals)
		for i := range vals {
			x := Cap{T: float64(i)}
			switch rot {
			case 0: // the same on all axes, scaled
				x.V = [3]float64{vals[i], vals[i], vals[i]}
			case 1:
				x.V = [3]float64{vals[i], vals[(i+1)%n], vals[(i*2+1)%n]}
			case 2:
				x.V = [3]float64{vals[n-1-i], 5, vals[i]}
			}
			if kind == Float {
				x.V = [3]float64{vals[i]}
			}
			cl.Caps = append(cl.Caps, x)
		}
		return cl
	}
	wrap := func(cl Coll) *Rec {
		return &Rec{ID: "r", Name: "n", Colls: []Coll{cl}}
	}
	linAlpha := []float64{0, 1, -3.5, 100, 0.1, -1e6, 3.0000001}
	angAlpha := []float64{0, 359.99, 180, -0.001, 720.5, 360, -90, 90.1}
	alpha := func(kind string) []float64 {
		if kind == Euler {
			return angAlpha
		}
		return linAlpha
	}
	reg(&eng.Check{
		ID: "C02", Level: "model_checking",
		Assumptions: []string{"values are finite and within the float32 range", "rounding of stored float32 bounds is tolerated with an explicit error bound"},
		Phases: []eng.Phase{
			{Name: "short", Bound: "every stream of 0 to 4 captures (5 in the thorough tier) over an alphabet of 7-8 values, for all 7 reduced techniques, 3 axis patterns", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				max := 4
				if c.Tier == "thorough" {
					max = 5
				}
				n := c.Free(max + 1)
				rot := 0
				if kind != Float && n > 1 {
					rot = c.Free(3)
				}
				a := alpha(kind)
				vals := make([]float64, n)
				for i := range vals {
					vals[i] = a[c.Free(len(a))]
				}
				roundtrip(c, wrap(fill(kind, vals, rot)), t)
			}},
			{Name: "drift", Bound: "every stream of 300 captures that repeats one of all patterns of 1 to 4 frame-to-frame deltas over an alphabet of 6, for all techniques and 3 starting values", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				n := 1 + c.Free(3)
				if c.Tier == "thorough" {
					n = 1 + c.Free(5)
				}
				start := []float64{0, 1.1, -1e5}[c.Free(3)]
				ds := []float64{0, 1, -1, 1.0 / 3, 1000, -0.001}
				pat := make([]float64, n)
				for i := range pat {
					pat[i] = ds[c.Free(len(ds))]
				}
				var vals []float64
				for i, v := 0, start; i < 300; i++ {
					vals = append(vals, v)
					v += pat[i%n]
				}
				roundtrip(c, wrap(fill(kind, vals, c.Free(3))), t)
			}},
			{Name: "tight", Bound: "every stream of 200 captures that repeats one of all patterns of 1 to 3 deltas out of 6 that hardly differ (or are huge), 3 starts, all techniques: cells at the limits of float32 bounds", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				n := 1 + c.Free(3)
				ds := [][]float64{
					{0.1, 0.1 + 1e-9, 0.1 - 1e-8, 0.1 + 1e-12, 0.1000001, -0.1},
					{1000, 1000.00003, 999.99997, 1000.00001, 1000 - 1e-9, 1000.00006},
					{1e36, -1e36, 3e36, -3e36, 1e30, -1e36 - 1e29},
					{1e-40, -1e-40, 1e-45, 3e-44, 0, 1e-41},
				}[c.Free(4)]
				start := []float64{0, 16777217, -3.0000001}[c.Free(3)]
				pat := make([]float64, n)
				for i := range pat {
					pat[i] = ds[c.Free(len(ds))]
				}
				var vals []float64
				for i, v := 0, start; i < 200; i++ {
					if math.Abs(v) > 3e38 {
						break
					}
					vals = append(vals, v)
					v += pat[i%n]
				}
				roundtrip(c, wrap(fill(kind, vals, 1)), t)
			}},
			{Name: "rest", Bound: "every stream of 3000 (thorough 30000) captures that moves by one of 8 deltas, rests, moves by another, rests; all techniques, 2 starts", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				ds := []float64{1, -1, 100.0 / 3, -0.7, 1e4, 1e-3, -250, 0}
				d1, d2 := ds[c.Free(len(ds))], ds[c.Free(len(ds))]
				v := []float64{0, -12.3}[c.Free(2)]
				n := 3000
				if c.Tier == "thorough" {
					n = 30000
				}
				var vals []float64
				for i := 0; i < n; i++ {
					if i == 5 || i == 7 {
						v += d1
					}
					if i == n/2 || i == n-n/4 {
						v += d2
					}
					vals = append(vals, v)
				}
				roundtrip(c, wrap(fill(kind, vals, 2)), t)
			}},
			{Name: "very long", Bound: "streams of 70001 (thorough also 300000) captures that move by one of 4 deltas every 1, 2, 1000 or 30000 captures, back and forth or one way; all techniques", Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				d := []float64{1, 100.0 / 3, -0.7, 1e4}[c.Free(4)]
				every := []int{1, 2, 1000, 30000}[c.Free(4)]
				back := c.Free(2) == 1
				n := 70001
				if c.Tier == "thorough" {
					n = []int{70001, 300000}[c.Free(2)]
				}
				vals := make([]float64, n)
				for i, v := 0, 3.25; i < n; i++ {
					if i%every == 0 {
						if back && (i/every)%2 == 1 {
							v -= d
						} else {
							v += d
						}
					}
					vals[i] = v
				}
				m := wrap(fill(kind, vals, 2))
				c.Describe(func() string {
					return fmt.Sprintf("%s %d captures of %s, %v more every %d, %v", techStr(t), n, kind, d, every, back)
				})
				file, _ := MustWrite(c, m.Real(), t)
				got, _ := MustRead(c, file)
				Same(c, "lossy round trip", m, got, Resolution(t))
				c.State(file)
			}},
			{Name: "outlier", Bound: "streams of 40 small steps with one of 6 outlier deltas at every position, then settling; all techniques", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				at := 1 + c.Free(39)
				jump := []float64{50, -50, 1e6, -1e6, 1e-9, 359.5}[c.Free(6)]
				small := []float64{0, 0.25, -0.01}[c.Free(3)]
				var vals []float64
				for i, v := 0, 10.0; i < 40; i++ {
					if i == at {
						v += jump
					} else {
						v += small * float64(1-2*(i&1))
					}
					vals = append(vals, v)
				}
				roundtrip(c, wrap(fill(kind, vals, 1)), t)
			}},
			{Name: "outlier in a long stream", Bound: "streams of 2^k+2 captures up to 4098 (thorough 65538) and one of 4 outlier deltas before, at and after every power of two and at both ends; all techniques", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				kind, t := pick(c)
				n, at := longAt(c)
				jump := []float64{50, -1e6, 1e-9, 359.5}[c.Free(4)]
				small := []float64{0, 0.25}[c.Free(2)]
				var vals []float64
				for i, v := 0, 10.0; i < n; i++ {
					if i == at {
						v += jump
					} else {
						v += small * float64(1-2*(i&1))
					}
					vals = append(vals, v)
				}
				m := wrap(fill(kind, vals, 1))
				file, _ := MustWrite(c, m.Real(), t)
				c.Describe(func() string {
					return fmt.Sprintf("%s %d captures of %s, %v more at %d", techStr(t), n, kind, jump, at)
				})
				got, _ := MustRead(c, file)
				Same(c, "lossy round trip", m, got, Resolution(t))
				c.State(file)
			}},
			sizesPhase(5000, 70000, ", 3 technique sets", func(c *eng.Ctx, m *Rec) {
				t := []Tech{{Time: 1, Pos: 1, Euler: 1, Float: 1}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 2, Pos: 3, Euler: 2, Float: 2}}[c.Free(3)]
				file, _ := MustWrite(c, m.Real(), t)
				got, _ := MustRead(c, file)
				Same(c, "lossy round trip", m, got, Resolution(t))
				c.State(file)
			}),
			{Name: "angles", Bound: "every multiple of 1/8 cell of a turn around each of 64 cell borders, and whole turns from -3 to 3, through 16-bit rotations", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				t := Tech{Euler: 2}
				border := float64(c.Free(64)) * 1024
				turns := float64(c.Free(7) - 3)
				var vals []float64
				for k := -20; k <= 20; k++ {
					vals = append(vals, (border+float64(k)/8)*360/65536+360*turns)
				}
				if c.Free(2) == 1 {
					i := c.Free(len(vals))
					vals = vals[i : i+1]
				}
				roundtrip(c, wrap(fill(Euler, vals, 1)), t)
			}},
			{Name: "large angles", Bound: "angles of either sign: 2^k and 2^k+-1 and their neighbours for k to 120, 10^k to 10^36, whole and half turns times 2^k, alone or two together, through 16-bit rotations", Body: func(c *eng.Ctx) {
				t := Tech{Euler: 2}
				var a float64
				switch c.Free(3) {
				case 0:
					k := c.Free(121)
					a = []float64{math.Ldexp(1, k), math.Ldexp(1, k) + 1, math.Ldexp(1, k) - 1, math.Nextafter(math.Ldexp(1, k), 0), math.Nextafter(math.Ldexp(1, k), 1e300)}[c.Free(5)]
				case 1:
					a = math.Pow(10, float64(c.Free(37))) * []float64{1, 3, 7.7}[c.Free(3)]
				case 2:
					a = math.Ldexp([]float64{360, 180, 359.99, 90.001}[c.Free(4)], c.Free(110))
				}
				if c.Free(2) == 1 {
					a = -a
				}
				vals := [][]float64{{a}, {a, 1}, {5, a, -a}, {a + 1, a / 3}}[c.Free(4)]
				roundtrip(c, wrap(fill(Euler, vals, 1)), t)
			}},
			{Name: "mixed", Bound: "recordings differing from the base in at most D details (finite chronological values), every combination of techniques", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				t := Tech{Pos: byte(c.Free(4)), Euler: byte(c.Free(3)), Float: byte(c.Free(3)), Time: byte(c.Free(3)), Compress: c.Free(2) == 1}
				g := &Gen{c: c, Counts: true, Vals: true, Times: true, Shapes: true, Finite: true, Chrono: true}
				roundtrip(c, g.Rec(), t)
			}},
		},
	})

	// ------------------------------------------------------------------ C03
	mk := func(kind, name string, ts []float64) Coll {
		cl := Coll{Kind: kind, Name: name}
		if kind == Enum {
			cl.Members = []string{"a", "b"}
		}
		for i, t := range ts {
			x := Cap{T: t}
			switch kind {
			case Pos, Euler:
				x.V = [3]float64{float64(i), 2, 3}
			case Float:
				x.V[0] = float64(i)
			case Enum:
				x.I = i % 2
			case Event:
				x.Name = "e"
				x.Meta = Meta{{"i", Val{Kind: VInt, I: int32(i)}}}
			}
			cl.Caps = append(cl.Caps, x)
		}
		return cl
	}
	kinds := []string{Pos, Euler, Float, Enum, Event}
	companions := [][]float64{nil, {5}, {1e5, 1e5 + 300}, {0, 0, 0.001, 77}}
	runTimes := func(c *eng.Ctx, ts []float64, tech byte, kind, kind2 string, comp []float64) {
		t := Tech{Time: tech}
		m := &Rec{ID: "r", Colls: []Coll{mk(kind2, "before", comp), mk(kind, "s", ts)}, Recs: []*Rec{{ID: "c", Colls: []Coll{mk(kind, "child", ts), mk(kind2, "after", comp)}}}}
		c.Describe(func() string {
			return fmt.Sprintf("time technique %d, %s %v next to %s %v", tech, strip(kind), clipF(ts), strip(kind2), comp)
		})
		file, _ := MustWrite(c, m.Real(), t)
		got, _ := MustRead(c, file)
		Same(c, "times", m, got, Resolution(t))
		if ts != nil && sameTimes(got.Colls[1], got.Recs[0].Colls[0]) == false {
			c.Fail("the same times come back differently in different places of a recording")
		}
		c.State(file)
	}
	reg(&eng.Check{
		ID: "C03", Level: "model_checking",
		Assumptions: []string{"for the 16-bit technique, capture times are chronological, finite and within the float32 range"},
		Phases: []eng.Phase{
			{Name: "chronological", Bound: "every chronological stream of 0 to 4 (thorough 6) captures with gaps from an alphabet of 6 and 5 starts, 3 techniques, 5 kinds, next to 4 other streams", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				max := 4
				if c.Tier == "thorough" {
					max = 6
				}
				n := c.Free(max + 1)
				var ts []float64
				if n > 0 {
					at := []float64{0, 1, -5.25, 1e6, 0.1}[c.Free(5)]
					gaps := []float64{0, 0.5, 0.1, 100, 1e-6, 1.0 / 3}
					for i := 0; i < n; i++ {
						if i > 0 {
							at += gaps[c.Free(len(gaps))]
						}
						ts = append(ts, at)
					}
				}
				k := c.Free(5)
				k2 := (k + n) % 5
				runTimes(c, ts, tech, kinds[k], kinds[k2], companions[c.Free(4)])
			}},
			{Name: "any order", Bound: "every stream of 1 to 3 captures over 10 arbitrary (also special) times, raw techniques, 5 kinds", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(2))
				n := 1 + c.Free(3)
				al := append([]float64{0, -1.5, 1e300, 0.1}, specials...)
				var ts []float64
				for i := 0; i < n; i++ {
					ts = append(ts, al[c.Free(len(al))])
				}
				k := c.Free(5)
				runTimes(c, ts, tech, kinds[k], kinds[(k+1)%5], companions[3])
			}},
			{Name: "long", Bound: "every stream of 300 captures repeating one of all patterns of 1 to 3 (thorough 5) gaps over an alphabet of 6, three starts", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				m := 3
				if c.Tier == "thorough" {
					m = 5
				}
				n := 1 + c.Free(m)
				at := []float64{0, 0.1, -1e4}[c.Free(3)]
				gaps := []float64{0, 1, 0.25, 1.0 / 60, 30, 1e-5}
				pat := make([]float64, n)
				for i := range pat {
					pat[i] = gaps[c.Free(len(gaps))]
				}
				var ts []float64
				for i := 0; i < 300; i++ {
					ts = append(ts, at)
					at += pat[i%n]
				}
				k := n % 5
				runTimes(c, ts, tech, kinds[k], kinds[(k+1)%5], companions[2])
			}},
			{Name: "steady", Bound: "streams of 3000 (thorough 30000) captures with one of 8 gaps throughout, another one or two of 8 gaps somewhere, 4 starts, 3 techniques", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				gaps := []float64{0.1, 1, 1.0 / 60, 0, 1e-6, 30, 1e-3, 0.25}
				g, o := gaps[c.Free(8)], gaps[c.Free(8)]
				at := []float64{0, 3.7, 1.6e9, -1e5}[c.Free(4)]
				two := c.Free(2)
				n := 3000
				if c.Tier == "thorough" {
					n = 30000
				}
				var ts []float64
				for i := 0; i < n; i++ {
					ts = append(ts, at)
					if i == 10 || two == 1 && i == n/2 {
						at += o
					} else {
						at += g
					}
				}
				m := &Rec{ID: "r", Colls: []Coll{mk(Float, "s", ts)}}
				c.Describe(func() string { return fmt.Sprintf("time technique %d, %v", tech, clipF(ts)) })
				file, _ := MustWrite(c, m.Real(), Tech{Time: tech})
				got, _ := MustRead(c, file)
				Same(c, "times", m, got, Resolution(Tech{Time: tech}))
				c.State(file)
			}},
			{Name: "very long", Bound: "streams of 70001 (thorough also 300000) captures with one of 4 gaps, and one of 4 other gaps every 2, 1000 or 30000 captures, 3 techniques", Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				gaps := []float64{0.1, 1.0 / 60, 0, 30}
				g, o := gaps[c.Free(4)], gaps[c.Free(4)]
				every := []int{2, 1000, 30000}[c.Free(3)]
				n := 70001
				if c.Tier == "thorough" {
					n = []int{70001, 300000}[c.Free(2)]
				}
				ts := make([]float64, n)
				for i, at := 0, 3.7; i < n; i++ {
					ts[i] = at
					if i%every == 1 {
						at += o
					} else {
						at += g
					}
				}
				m := &Rec{ID: "r", Colls: []Coll{mk(Float, "s", ts)}}
				c.Describe(func() string {
					return fmt.Sprintf("time technique %d, %d captures, gap %v and %v every %d", tech, n, g, o, every)
				})
				file, _ := MustWrite(c, m.Real(), Tech{Time: tech})
				got, _ := MustRead(c, file)
				Same(c, "times", m, got, Resolution(Tech{Time: tech}))
				c.State(file)
			}},
			{Name: "outlier", Bound: "40 captures, one of 6 gaps at every position among small gaps, 3 techniques, 5 kinds", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				pos := 1 + c.Free(39)
				gap := []float64{0, 10, 1e6, 1e-7, 0.3, 65536}[c.Free(6)]
				at := 3.0
				var ts []float64
				for i := 0; i < 40; i++ {
					if i == pos {
						at += gap
					} else {
						at += 0.125
					}
					ts = append(ts, at)
				}
				k := c.Free(5)
				runTimes(c, ts, tech, kinds[k], kinds[(k+2)%5], nil)
			}},
			{Name: "outlier in a long stream", Bound: "streams of 2^k+2 captures up to 4098 (thorough 65538) and one of 4 gaps before, at and after every power of two and at both ends; 3 techniques, 5 kinds", Quick: 0, Thor: 0, Body: func(c *eng.Ctx) {
				tech := byte(c.Free(3))
				kind := kinds[c.Free(5)]
				n, at := longAt(c)
				gap := []float64{0, 10, 1e-7, 65536}[c.Free(4)]
				x := 3.0
				var ts []float64
				for i := 0; i < n; i++ {
					if i == at {
						x += gap
					} else {
						x += 0.125
					}
					ts = append(ts, x)
				}
				m := &Rec{ID: "r", Colls: []Coll{mk(kind, "s", ts), mk(kind, "after", []float64{1, 2, 4})}}
				c.Describe(func() string {
					return fmt.Sprintf("time technique %d, %d captures of %s, gap %v at %d", tech, n, kind, gap, at)
				})
				file, _ := MustWrite(c, m.Real(), Tech{Time: tech})
				got, _ := MustRead(c, file)
				Same(c, "times", m, got, Resolution(Tech{Time: tech}))
				c.State(file)
			}},
			sizesPhase(5000, 70000, ", 3 techniques", func(c *eng.Ctx, m *Rec) {
				t := Tech{Time: byte(c.Free(3))}
				file, _ := MustWrite(c, m.Real(), t)
				got, _ := MustRead(c, file)
				Same(c, "times", m, got, Resolution(t))
				c.State(file)
			}),
			{Name: "mixed", Bound: "recordings differing from the base in at most D details (counts, times, shapes), 3 techniques, with and without compression", Quick: 1, Thor: 3, Body: func(c *eng.Ctx) {
				t := Tech{Time: byte(c.Free(3)), Compress: c.Free(2) == 1}
				g := &Gen{c: c, Counts: true, Times: true, Shapes: true, Extras: true, Finite: true, Chrono: t.Time == 2}
				m := g.Rec()
				c.Describe(func() string { return techStr(t) + " " + m.String() })
				file, _ := MustWrite(c, m.Real(), t)
				got, _ := MustRead(c, file)
				Same(c, "times", m, got, Resolution(t))
				c.State(m.Hash(), file)
			}},
		},
	})
}

func clipF(a []float64) interface{} {
	if len(a) > 8 {
		return fmt.Sprint(a[:8], "... n=", len(a))
	}
	return a
}

func sameTimes(a, b Coll) bool {
	if len(a.Caps) != len(b.Caps) {
		return false
	}
	for i := range a.Caps {
		if math.Float64bits(a.Caps[i].T) != math.Float64bits(b.Caps[i].T) {
			return false
		}
	}
	return true
}

// longAt chooses a length just over a power of two and a place in it near a
// power of two or an end.
func longAt(c *eng.Ctx) (n, at int) {
	top := 6 // 64 to 4096
	if c.Tier == "thorough" {
		top = 10
	}
	k := 6 + c.Free(top+1)
	n = 1<<uint(k) + 2
	p := c.Free(k + 1)
	at = 1<<uint(p) + c.Free(3) - 1
	if at < 1 {
		at = n - 1
	}
	return
}
