package checks

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

var errDest = errors.New("destination failed")

// badDest is a destination that fails.
type badDest struct {
	call     int // index of the failing Write call, or -1
	budget   int // bytes accepted before failing, or -1
	once     bool
	partial  int // 0 none, 1 half, 2 all but one, 3 all (with an error)
	calls    int
	accepted []byte
	failed   bool
}

func (d *badDest) Write(p []byte) (int, error) {
	i := d.calls
	d.calls++
	if d.budget >= 0 && !(d.once && d.failed) {
		if room := d.budget - len(d.accepted); len(p) > room || d.failed {
			if d.failed {
				room = 0
			}
			d.failed = true
			d.accepted = append(d.accepted, p[:room]...)
			return room, errDest
		}
	}
	if d.call >= 0 && (i == d.call || i > d.call && !d.once) {
		n := 0
		if i == d.call {
			switch d.partial {
			case 1:
				n = len(p) / 2
			case 2:
				n = len(p) - 1
			case 3:
				n = len(p)
			}
			if n < 0 {
				n = 0
			}
		}
		d.failed = true
		d.accepted = append(d.accepted, p[:n]...)
		return n, errDest
	}
	d.accepted = append(d.accepted, p...)
	return len(p), nil
}

func init() {
	techs := []Tech{{}, {Time: 1, Pos: 1, Euler: 1, Float: 1}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 2, Pos: 3, Euler: 2, Float: 2}}
	run := func(c *eng.Ctx, what string, m *Rec, t Tech, byCall bool) {
		real := m.Real()
		good, gn := MustWrite(c, real, t)
		counter := &badDest{call: -1, budget: -1}
		if _, err := Write(c, real, t, counter); err != nil {
			c.Skip()
		}
		d := &badDest{call: -1, budget: -1}
		if byCall {
			d.call = c.Free(counter.calls)
			d.partial = c.Free(4)
			d.once = c.Free(2) == 1
		} else {
			d.budget = c.Free(len(good))
			d.once = c.Free(2) == 1
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s %s: destination fails at call %d/%d (partial %d) or after %d of %d bytes, once=%v", what, techStr(t), d.call, counter.calls, d.partial, d.budget, len(good), d.once)
		})
		n, err := Write(c, real, t, d)
		if !d.failed {
			c.Skip()
		}
		c.State(what, techStr(t), d.call, d.budget, d.partial, d.once, n, fmt.Sprint(err))
		if err == nil {
			c.Fail("%s: the destination failed (call %d, partial %d, budget %d, once %v) and the write reports success", what, d.call, d.partial, d.budget, d.once)
		}
		if !t.Compress && n > len(d.accepted) {
			c.Fail("%s: the write reports %d bytes, the destination accepted %d", what, n, len(d.accepted))
		}
		if n < 0 {
			c.Fail("negative count %d", n)
		}
		if got := Complete(c, real); Diff(m, got, nil) != "" {
			c.Fail("%s: a failed write changed the recording: %s", what, Diff(m, got, nil))
		}
		again, an := MustWrite(c, real, t)
		if !bytes.Equal(again, good) || an != gn {
			c.Fail("%s: after a failed write the recording is written differently (%d bytes, before %d)", what, len(again), len(good))
		}
	}
	reg(&eng.Check{
		ID: "C08", Level: "fault_enumeration",
		Rule:        "for every recording of a family, technique set and compression, a fault is injected at every write call (no, half, all-but-one or all bytes accepted; once or for good) and after every number of bytes",
		Assumptions: []string{"the destination obeys io.Writer: a short write comes with an error"},
		Phases: []eng.Phase{
			{Name: "calls", Bound: "every write call x 4 partial writes x once/for good, for every recording of the family, 4 technique sets, compressed or not", Body: func(c *eng.Ctx) {
				fs := Family()
				f := fs[c.Free(len(fs))]
				t := techs[c.Free(len(techs))]
				t.Compress = c.Free(2) == 1
				run(c, f.Name, f.Orig, t, true)
			}},
			{Name: "bytes", Bound: "every number of bytes accepted before the failure, once or for good, same family", Body: func(c *eng.Ctx) {
				fs := Family()
				f := fs[c.Free(len(fs))]
				t := techs[c.Free(len(techs))]
				t.Compress = c.Free(2) == 1
				run(c, f.Name, f.Orig, t, false)
			}},
			onlySizes(3, 9, " (thorough also 17 and 20): every write call x 4 partial writes x once/for good", func(c *eng.Ctx, m *Rec) {
				run(c, m.ID, m, techs[0], true)
			}),
			combos("combinations", 1, 2, ", every write call x 4 partial writes x once/for good", nil, func(c *eng.Ctx, m *Rec) {
				run(c, "recording", m, techs[0], true)
			}),
			{Name: "large", Bound: "every write call x 4 partial writes x once/for good, and (thorough) every number of bytes, for a 12 KB recording and a 200 KB one with large binaries", Body: func(c *eng.Ctx) {
				t := techs[c.Free(2)*2]
				t.Compress = c.Free(2) == 1
				m := bigRec(64)
				if c.Free(2) == 1 {
					m = &Rec{ID: "bins", Bins: []Bin{{Name: "a", Data: noise(100000)}, {Name: "b", Data: noise(70000)}}, Recs: []*Rec{{ID: "c", Bins: []Bin{{Name: "d", Data: noise(33000)}}}}}
				}
				if c.Tier == "thorough" && len(m.Bins[0].Data) < 1000 {
					run(c, "big", m, t, c.Free(2) == 0)
				} else {
					run(c, "big", m, t, true)
				}
			}},
		},
	})
}

// noise is incompressible data.
func noise(n int) []byte {
	b := make([]byte, n)
	x := uint64(88172645463325252)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return b
}
