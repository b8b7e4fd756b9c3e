package checks

import (
	"fmt"
	"math"

	. "github.com/recolude/rap/zzverif/model"
)

const eps32 = 1.0 / (1 << 24) // half a unit in the last place of float32

func abs(x float64) float64 { return math.Abs(x) }

// Near accepts times and values within a relative error (of the largest
// magnitude in the collection).
func Near(rel float64) *Tol {
	return &Tol{Coll: func(p string, w, g Coll) string {
		scale := 0.0
		for _, c := range w.Caps {
			scale = math.Max(scale, abs(c.T))
			for k := 0; k < 3; k++ {
				scale = math.Max(scale, abs(c.V[k]))
			}
		}
		ok := func(a, b float64) bool {
			return a == b || a != a && b != b || abs(a-b) <= rel*(scale+1e-300)
		}
		for i := range w.Caps {
			if !ok(w.Caps[i].T, g.Caps[i].T) {
				return fmt.Sprintf("%s/captures[%d]: want time %v got %v", p, i, w.Caps[i].T, g.Caps[i].T)
			}
			for k := 0; k < 3; k++ {
				if !ok(w.Caps[i].V[k], g.Caps[i].V[k]) {
					return fmt.Sprintf("%s/captures[%d]: want value %v got %v", p, i, w.Caps[i].V, g.Caps[i].V)
				}
			}
		}
		return ""
	}}
}

// Resolution accepts what techniques t may do to captures (properties C02 and
// C03).
func Resolution(t Tech) *Tol { return resolution(t, false) }

// OldResolution is Resolution for files of the original build, which left no
// room to correct the rounding of the largest and smallest steps.
func OldResolution(t Tech) *Tol { return resolution(t, true) }

func resolution(t Tech, old bool) *Tol {
	steps := drift
	if old {
		steps = oldSteps
	}
	return &Tol{Coll: func(p string, w, g Coll) string {
		if d := timeDiff(t.Time, w.Caps, g.Caps, old); d != "" {
			return p + ": " + d
		}
		switch w.Kind {
		case Pos:
			for k := 0; k < 3; k++ {
				a, b := axis(w.Caps, k), axis(g.Caps, k)
				d := ""
				switch t.Pos {
				case 0:
					d = exact(a, b)
				case 1:
					d = exact(f32all(a), b)
				case 2:
					d = steps(a, b, 16)
				case 3:
					d = steps(a, b, 8)
				}
				if d != "" {
					return fmt.Sprintf("%s: position axis %d: %s", p, k, d)
				}
			}
		case Euler:
			for k := 0; k < 3; k++ {
				a, b := axis(w.Caps, k), axis(g.Caps, k)
				d := ""
				switch t.Euler {
				case 0:
					d = exact(a, b)
				case 1:
					d = exact(f32all(a), b)
				case 2:
					for i := range a {
						e := math.Mod(abs(math.Mod(a[i], 360)-math.Mod(b[i], 360)), 360)
						e = math.Min(e, 360-e)
						if !(e <= 360.0/131072+1e-9 || len(a) == 1 && e <= 360*eps32*2) {
							d = fmt.Sprintf("capture %d of %d: angle %v came back as %v", i, len(a), a[i], b[i])
							break
						}
					}
				}
				if d != "" {
					return fmt.Sprintf("%s: rotation axis %d: %s", p, k, d)
				}
			}
		case Float:
			a, b := axis(w.Caps, 0), axis(g.Caps, 0)
			d := ""
			switch t.Float {
			case 0:
				d = exact(a, b)
			case 1:
				d = exact(f32all(a), b)
			case 2:
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, x := range a {
					lo, hi = math.Min(lo, x), math.Max(hi, x)
				}
				tol := (hi-lo)/131072*(1+1e-9) + 3*eps32*math.Max(abs(lo), abs(hi)) + 1e-45
				for i := range a {
					if !(abs(a[i]-b[i]) <= tol) {
						d = fmt.Sprintf("capture %d of %d: value %v came back as %v (range %v..%v)", i, len(a), a[i], b[i], lo, hi)
						break
					}
				}
			}
			if d != "" {
				return fmt.Sprintf("%s: %s", p, d)
			}
		}
		return ""
	}}
}

func axis(c []Cap, k int) []float64 {
	out := make([]float64, len(c))
	for i := range c {
		out[i] = c[i].V[k]
	}
	return out
}

func f32all(a []float64) []float64 {
	out := make([]float64, len(a))
	for i := range a {
		out[i] = float64(float32(a[i]))
	}
	return out
}

func exact(a, b []float64) string {
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && (a[i] == a[i] || b[i] == b[i]) {
			return fmt.Sprintf("capture %d of %d: want %v got %v", i, len(a), a[i], b[i])
		}
	}
	return ""
}

func is32(x float64) bool { return float64(float32(x)) == x }

// drift checks a delta-quantised sequence of depth bits per step: every value
// is within half a cell, give or take what the margin and the stored bounds
// cost, but for the rounding of the start.
func drift(a, b []float64, depth uint) string {
	if len(a) == 0 {
		return ""
	}
	if b[0] != float64(float32(a[0])) {
		return fmt.Sprintf("first value %v came back as %v", a[0], b[0])
	}
	if len(a) == 1 {
		return ""
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	mag := abs(a[0])
	for i := 1; i < len(a); i++ {
		d := a[i] - a[i-1]
		lo, hi = math.Min(lo, d), math.Max(hi, d)
		mag = math.Max(mag, abs(a[i]))
	}
	cells := float64(uint64(1) << depth)
	h := (hi - lo) / 2 / cells * (1 + 4/cells) * (1 + 1e-9)
	// the stored bounds are float32
	h += 8 * eps32 * (abs(lo) + abs(hi)) / cells
	off := b[0] - a[0]
	for i := 1; i < len(a); i++ {
		tol := float64(i)*4e-16*mag*8 + 1e-44
		if !(abs(b[i]-a[i]-off) <= h+tol) {
			return fmt.Sprintf("capture %d of %d: want %v got %v, which is not within half a cell (%v; steps %v..%v; start %v)", i, len(a), a[i], b[i], h, lo, hi, a[0])
		}
	}
	return ""
}

// oldSteps checks a delta-quantised sequence of depth bits per step.
func oldSteps(a, b []float64, depth uint) string {
	if len(a) == 0 {
		return ""
	}
	if b[0] != float64(float32(a[0])) {
		return fmt.Sprintf("first value %v came back as %v", a[0], b[0])
	}
	if len(a) == 1 {
		return ""
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	mag := abs(a[0])
	for i := 1; i < len(a); i++ {
		d := a[i] - a[i-1]
		lo, hi = math.Min(lo, d), math.Max(hi, d)
		mag = math.Max(mag, abs(a[i]))
	}
	h := (hi - lo) / float64(uint64(2)<<depth)
	for i := 1; i < len(a); i++ {
		// rounding: the stored start and bounds are float32, float64 sums
		tol := float64(i) * 4e-16 * mag * 8
		if !is32(a[0]) {
			tol += 2 * eps32 * abs(a[0])
		}
		if !is32(lo) || !is32(hi) {
			tol += 3 * eps32 * float64(i) * (abs(lo) + abs(hi))
		}
		step := math.Max(lo+h, math.Min(hi-h, a[i]-b[i-1]))
		if !(abs(b[i]-b[i-1]-step) <= h*(1+1e-9)+tol+1e-40) {
			return fmt.Sprintf("capture %d of %d: want %v got %v; from %v the best step is %v (steps %v..%v, half cell %v)", i, len(a), a[i], b[i], b[i-1], step, lo, hi, h)
		}
	}
	return ""
}

func timeDiff(tech byte, w, g []Cap, old bool) string {
	a, b := make([]float64, len(w)), make([]float64, len(g))
	for i := range w {
		a[i], b[i] = w[i].T, g[i].T
	}
	switch tech {
	case 0:
		if d := exact(a, b); d != "" {
			return "time: " + d
		}
	case 1:
		if d := exact(f32all(a), b); d != "" {
			return "time: " + d
		}
	case 2:
		if len(a) == 0 {
			return ""
		}
		if b[0] != float64(float32(a[0])) {
			return fmt.Sprintf("first time %v came back as %v", a[0], b[0])
		}
		gap := 0.0
		mag := abs(a[0])
		for i := 1; i < len(a); i++ {
			if a[i] < a[i-1] {
				return "" // not chronological: no promise beyond the first
			}
			gap = math.Max(gap, a[i]-a[i-1])
			mag = math.Max(mag, abs(a[i]))
		}
		h := gap / 131072
		off := b[0] - a[0]
		for i := 1; i < len(a) && !old; i++ {
			tol := float64(i)*4e-16*mag*8 + 1e-44
			h := h*(1+1e-4) + eps32*gap*4/65536
			if len(a) == 2 {
				tol += eps32 * gap
			}
			if b[i] < b[i-1] {
				return fmt.Sprintf("time %d of %d goes backwards: %v after %v", i, len(a), b[i], b[i-1])
			}
			if !(b[i]-off >= a[i]-h-tol) {
				return fmt.Sprintf("time %d of %d: want %v got %v, which is more than half a cell (%v) early (start %v, largest gap %v)", i, len(a), a[i], b[i], h, a[0], gap)
			}
			if !(b[i]-off <= math.Max(a[i], b[i-1]-off)+h+tol) {
				return fmt.Sprintf("time %d of %d: want %v got %v after %v, which is more than half a cell (%v) late (start %v, largest gap %v)", i, len(a), a[i], b[i], b[i-1], h, a[0], gap)
			}
		}
		for i := 1; i < len(a) && old; i++ {
			tol := float64(i) * 4e-16 * mag * 8
			if !is32(a[0]) {
				tol += 2 * eps32 * abs(a[0])
			}
			if !is32(gap) {
				tol += 3 * eps32 * float64(i) * gap
			}
			step := math.Max(h, math.Min(gap-h, a[i]-b[i-1]))
			if b[i] < b[i-1] {
				return fmt.Sprintf("time %d of %d goes backwards: %v after %v", i, len(a), b[i], b[i-1])
			}
			if !(abs(b[i]-b[i-1]-step) <= h*(1+1e-9)+tol+1e-40) {
				return fmt.Sprintf("time %d of %d: want %v got %v; from %v the best step is %v (largest gap %v)", i, len(a), a[i], b[i], b[i-1], step, gap)
			}
		}
	}
	return ""
}
