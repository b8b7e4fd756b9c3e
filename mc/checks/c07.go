package checks

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// bigRec is a recording with enough of everything to make multi-byte counts.
func bigRec(n int) *Rec {
	r := &Rec{ID: "big", Name: "Big", Meta: manyKeys(n/4, "k")}
	for _, k := range Order {
		c := oneColl(k, n)
		r.Colls = append(r.Colls, c)
	}
	r.Bins = []Bin{{Name: "bin", Data: raw(VBytes, 3*n).Raw}, {Name: "b2", Data: []byte("tail"), Meta: manyKeys(2, "q")}}
	r.Refs = []Ref{{Name: "ref", URI: "u", Size: 1 << 40}}
	for i := 0; i < n/16; i++ {
		r.Recs = append(r.Recs, &Rec{ID: fmt.Sprint("c", i), Name: "child", Colls: []Coll{oneColl(Order[i%5], 2)}})
	}
	return r
}

// cut checks one prefix of a file.
func cut(c *eng.Ctx, what string, file []byte, k int, want *Rec, tol *Tol, lenient bool, in io.Reader) {
	rec, n, err := Read(c, in)
	c.State(what, k, fmt.Sprint(err))
	if err != nil {
		if rec != nil {
			c.Fail("%s cut to %d of %d bytes: error %q and a recording", what, k, len(file), err)
		}
		return
	}
	if rec == nil {
		c.Fail("%s cut to %d of %d bytes: neither an error nor a recording", what, k, len(file))
	}
	got := Complete(c, rec)
	if !lenient {
		c.Fail("%s cut to %d of %d bytes loads without an error (%d bytes read): %s", what, k, len(file), n, Diff(want, got, tol))
	}
	if d := Diff(want, got, tol); d != "" {
		c.Fail("%s cut to %d of %d bytes loads as a different recording: %s", what, k, len(file), d)
	}
}

func init() {
	reg(&eng.Check{
		ID: "C07", Level: "fault_enumeration",
		Rule:        "every file of a family that covers each section, count, stream technique, time technique and metadata code of both versions is cut at every byte; each cut is one execution of the real reader",
		Assumptions: []string{"a cut file is a proper prefix; for compressed files a prefix that still yields the complete original is accepted"},
		Phases: []eng.Phase{
			{Name: "family", Bound: "every proper prefix of every file of the family (both versions)", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				k := c.Free(len(f.Raw))
				c.Describe(func() string { return fmt.Sprintf("%s cut to %d of %d bytes", f.Name, k, len(f.Raw)) })
				cut(c, f.Name, f.Raw, k, f.Want, f.Exact(), f.V1 || f.T.Compress, bytes.NewReader(f.Raw[:k:k]))
			}},
			{Name: "content", Bound: "every file of the family whose compressed content ends early: the compressed bytes of version 1 cut at every byte and the declared size with them; the content of version 2 cut at every byte and then compressed (4 levels)", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				var file []byte
				if f.V1 {
					body := f.Raw[13:]
					k := c.Free(len(body))
					file = V1Wrap(body[:k], 1, uint64(k))
					c.Describe(func() string { return fmt.Sprintf("%s with %d of %d compressed bytes", f.Name, k, len(body)) })
					cut(c, f.Name+" content", file, k, f.Want, f.Exact(), true, bytes.NewReader(file))
					return
				}
				k := c.Free(len(f.Im.Body))
				var b bytes.Buffer
				fw, _ := flate.NewWriter(&b, []int{1, 9, 0, -2}[c.Free(4)])
				fw.Write(f.Im.Body[:k])
				fw.Close()
				file = append(append(append([]byte{}, f.Im.Head...), 1), b.Bytes()...)
				c.Describe(func() string { return fmt.Sprintf("%s, compressed with %d of %d bytes", f.Name, k, len(f.Im.Body)) })
				cut(c, f.Name+" content", file, k, f.Want, f.Exact(), false, bytes.NewReader(file))
			}},
			{Name: "written", Bound: "every proper prefix of every file the real writer makes of the family's recordings, in 4 technique sets, compressed or not, delivered whole or byte by byte", Body: func(c *eng.Ctx) {
				fs := Family()
				f := fs[c.Free(len(fs))]
				t := []Tech{{}, {Time: 1, Pos: 1, Euler: 1, Float: 1}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 2, Pos: 3, Euler: 2, Float: 2}}[c.Free(4)]
				t.Compress = c.Free(2) == 1
				file, _ := MustWrite(c, f.Orig.Real(), t)
				full, _, err := Read(c, bytes.NewReader(file))
				if err != nil {
					c.Skip() // not this property's failure
				}
				want := Complete(c, full)
				k := c.Free(len(file))
				c.Describe(func() string {
					return fmt.Sprintf("%s written with %s, cut to %d of %d bytes", f.Name, techStr(t), k, len(file))
				})
				var in io.Reader = bytes.NewReader(file[:k:k])
				if c.Free(2) == 1 {
					in = &slowReader{b: file[:k:k], mode: 1}
				}
				cut(c, f.Name, file, k, want, nil, t.Compress, in)
			}},
			combos("combinations", 1, 1, ", every proper prefix of the file the real writer makes, raw or compressed", nil, func(c *eng.Ctx, m *Rec) {
				t := Full
				t.Compress = c.Free(2) == 1
				file, _ := MustWrite(c, m.Real(), t)
				k := c.Free(len(file))
				c.Describe(func() string { return fmt.Sprintf("%s, cut to %d of %d bytes", m.String(), k, len(file)) })
				cut(c, "recording", file, k, m, nil, t.Compress, bytes.NewReader(file[:k:k]))
			}),
			{Name: "large", Bound: "every proper prefix of files of 2-40 KB with multi-byte counts, in 3 technique sets", Body: func(c *eng.Ctx) {
				t := []Tech{{}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 1, Pos: 1, Euler: 1, Float: 1}}[c.Free(3)]
				t.Compress = c.Free(2) == 1
				n := 64
				if c.Tier == "thorough" {
					n = 64 + c.Free(2)*136
				}
				file, want := bigFile(c, n, t)
				k := c.Free(len(file))
				c.Describe(func() string {
					return fmt.Sprintf("big recording (%d) %s cut to %d of %d bytes", n, techStr(t), k, len(file))
				})
				cut(c, "big", file, k, want, nil, t.Compress, bytes.NewReader(file[:k:k]))
			}},
			{Name: "samples", Bound: "every prefix (quick: every 16th, thorough: all) of the version 1 sample recordings in the repository", Body: func(c *eng.Ctx) {
				s := sampleFiles()
				if len(s) == 0 {
					c.Skip()
				}
				f := s[c.Free(len(s))]
				step := 16
				if c.Tier == "thorough" {
					step = 1
				}
				if len(f) > 20000 {
					step *= 64
				}
				k := c.Free((len(f)+step-1)/step) * step
				if k >= len(f) {
					c.Skip()
				}
				full, _, err := Read(c, bytes.NewReader(f))
				if err != nil {
					c.Skip()
				}
				c.Describe(func() string { return fmt.Sprintf("sample of %d bytes cut to %d", len(f), k) })
				cut(c, "sample", f, k, Complete(c, full), nil, true, bytes.NewReader(f[:k:k]))
			}},
		},
	})
}

type bigKey struct {
	n int
	t Tech
}
type bigVal struct {
	file []byte
	want *Rec
}

var bigCache = map[bigKey]bigVal{}

// bigFile writes (once per process) a large file with the real writer.
func bigFile(c *eng.Ctx, n int, t Tech) ([]byte, *Rec) {
	k := bigKey{n, t}
	if v, ok := bigCache[k]; ok {
		return v.file, v.want
	}
	file, _ := MustWrite(c, bigRec(n).Real(), t)
	rec, _, err := Read(c, bytes.NewReader(file))
	if err != nil {
		c.Skip()
	}
	bigCache[k] = bigVal{file, Complete(c, rec)}
	return bigCache[k].file, bigCache[k].want
}

var samples [][]byte
var samplesRead bool

func sampleFiles() [][]byte {
	if samplesRead {
		return samples
	}
	samplesRead = true
	dir := os.Getenv("RAPMC_REPO")
	if dir == "" {
		dir = "/repo"
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "test/data/io/v1/*.rap"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err == nil && len(b) < 300000 {
			samples = append(samples, b)
		}
	}
	return samples
}

// slowReader delivers bytes in a uniform way.
type slowReader struct {
	b    []byte
	mode int
	n    int
}

// deliveries of slowReader.
const numModes = 8

func (s *slowReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s.n++
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	eof := false
	switch s.mode {
	case 0:
	case 1:
		n = 1
	case 2:
		n = (n + 1) / 2
	case 3:
		n = 3
	case 4: // the last bytes come with EOF
		eof = true
	case 5: // every other read is empty
		if s.n%2 == 1 {
			return 0, nil
		}
	case 6: // one byte, empty reads, last with EOF
		if s.n%3 == 0 {
			return 0, nil
		}
		n, eof = 1, true
	case 7: // half, the rest of the buffer used as scratch space
		n = (n + 1) / 2
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	if s.mode == 7 {
		for i := n; i < len(p); i++ {
			p[i] = 0xEE
		}
	}
	if eof && len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var _ = runtime.NumCPU
var _ format.Recording
