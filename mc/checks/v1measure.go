//go:build !nov1measure

package checks

import (
	"math"

	"github.com/recolude/rap/internal/io/rapv1"
	"github.com/recolude/rap/zzverif/eng"
)

func v1Measured() eng.Phase {
	return eng.Phase{Name: "version 1 messages", Bound: "no, one or two times over 4 choices in the events of the recording and in the events, positions, rotations and states of one subject, and another subject with times in one of them or in none", Body: func(c *eng.Ctx) {
		pats := [][]float32{nil, {1, 2}, {-3}, {5, 0.5}}
		g := &rapv1.Recording{}
		lo, hi, n := math.Inf(1), math.Inf(-1), 0
		place := func(s *rapv1.SubjectRecording, where int, ts []float32) {
			for _, t := range ts {
				lo, hi = math.Min(lo, float64(t)), math.Max(hi, float64(t))
				switch where {
				case 0:
					g.CustomEvents = append(g.CustomEvents, &rapv1.CustomEventCapture{Time: t})
				case 1:
					s.CustomEvents = append(s.CustomEvents, &rapv1.CustomEventCapture{Time: t})
				case 2:
					s.CapturedPositions = append(s.CapturedPositions, &rapv1.VectorCapture{Time: t})
				case 3:
					s.CapturedRotations = append(s.CapturedRotations, &rapv1.VectorCapture{Time: t})
				case 4:
					s.LifecycleEvents = append(s.LifecycleEvents, &rapv1.LifeCycleEventCapture{Time: t})
				}
				if where < 2 {
					n++
				}
			}
		}
		a, b := &rapv1.SubjectRecording{}, &rapv1.SubjectRecording{}
		for i := 0; i < 5; i++ {
			place(a, i, pats[c.Free(4)])
		}
		g.Subjects = append(g.Subjects, a)
		if k := c.Free(9); k > 0 {
			place(b, 1+(k-1)%4, [][]float32{{-7}, {3, 9}}[(k-1)/4])
			g.Subjects = append(g.Subjects, b)
		}
		c.Describe(func() string { return g.String() })
		var s, e, d float64
		var events int
		c.NoPanic("measuring a message", func() {
			s, e, d = rapv1.GetStartOfRecording(*g), rapv1.GetEndOfRecording(*g), rapv1.GetRecordingDuration(*g)
			events = rapv1.CountRecordingCustomEvenets(*g)
		})
		c.State(s, e, events)
		if events != n {
			c.Fail("%d custom events are counted, there are %d", events, n)
		}
		if math.IsInf(lo, 1) {
			return
		}
		if s != lo || e != hi || d != hi-lo {
			c.Fail("the message spans %v..%v and lasts %v, its times go from %v to %v", s, e, d, lo, hi)
		}
	}}
}
