// Package checks holds the bounded exhaustive checks, one per property.
package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// All checks by property.
var All = map[string]*eng.Check{}

func reg(c *eng.Check) {
	var ps []eng.Phase
	for _, p := range c.Phases {
		more := p.More
		p.More = nil
		ps = append(append(ps, p), more...)
	}
	c.Phases = ps
	All[c.ID] = c
}

// Order is the order of the encoders in Encs.
var Order = []string{Event, Pos, Euler, Enum, Float}

// Encs builds the five encoders for techniques t.
func Encs(t Tech) []encoding.Encoder {
	return []encoding.Encoder{
		event.NewEncoder(),
		position.NewEncoder(position.StorageTechnique(t.Pos)),
		euler.NewEncoder(euler.StorageTechnique(t.Euler)),
		enum.NewEncoder(),
		float.NewEncoder(float.StorageTechnique(t.Float)),
	}
}

// Write runs the real writer; a panic is a violation.
func Write(c *eng.Ctx, r format.Recording, t Tech, out io.Writer) (n int, err error) {
	c.NoPanic("write", func() {
		n, err = rapio.NewWriter(Encs(t), t.Compress, out, rapio.TimeStorageTechnique(t.Time)).Write(r)
	})
	return
}

// MustWrite writes to memory and expects success.
func MustWrite(c *eng.Ctx, r format.Recording, t Tech) ([]byte, int) {
	var b bytes.Buffer
	n, err := Write(c, r, t, &b)
	if err != nil {
		c.Fail("write failed: %v", err)
	}
	return b.Bytes(), n
}

// Read runs the real reader with all encoders; a panic is a violation.
func Read(c *eng.Ctx, in io.Reader) (rec format.Recording, n int, err error) {
	c.NoPanic("read", func() { rec, n, err = rapio.NewReader(Encs(Tech{}), in).Read() })
	return
}

// MustRead reads a file and expects success and a complete recording.
func MustRead(c *eng.Ctx, file []byte) (*Rec, int) {
	rec, n, err := Read(c, bytes.NewReader(file))
	if err != nil {
		c.Fail("read failed: %v", err)
	}
	return Complete(c, rec), n
}

// Complete converts a loaded recording, failing when a part is missing.
func Complete(c *eng.Ctx, rec format.Recording) *Rec {
	var m *Rec
	var err error
	c.NoPanic("inspecting the recording", func() { m, err = From(rec) })
	if err != nil {
		c.Fail("recording is not complete: %v", err)
	}
	return m
}

// Same fails when got differs from want.
func Same(c *eng.Ctx, what string, want, got *Rec, tol *Tol) {
	if d := Diff(want, got, tol); d != "" {
		c.Fail("%s: %s", what, d)
	}
}

func techStr(t Tech) string {
	return fmt.Sprintf("time%d pos%d euler%d float%d compress=%v", t.Time, t.Pos, t.Euler, t.Float, t.Compress)
}

// loadAll reads a file with all encoders.
func loadAll(c *eng.Ctx, file []byte) (format.Recording, int, error) {
	return Read(c, bytes.NewReader(file))
}
