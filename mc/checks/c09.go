package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/zzverif/cli"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

var errSource = errors.New("source failed")

// chooseReader lets the explorer decide what each Read call delivers.
type chooseReader struct {
	c     *eng.Ctx
	b     []byte
	calls int
	max   int // choices are offered for the first max calls
}

func (r *chooseReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	k := 0
	if r.calls < r.max {
		k = r.c.Dev(6)
	}
	r.calls++
	if r.calls > 1<<20 {
		r.c.Fail("the source was asked more than 2^20 times")
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	switch k {
	case 1:
		n = 1
	case 2:
		n = (n + 1) / 2
	case 3:
		return 0, nil
	case 4:
		n = len(p) - 1
		if n == 0 {
			n = 1
		}
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if k == 5 && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// failReader fails at its k-th call, after delivering some of the bytes asked
// for.
type failReader struct {
	b       []byte
	k, mode int // mode: 0 no bytes, 1 one byte and the error, 2 all asked bytes and the error
	once    bool
	step    int // bytes per call (0: as asked)
	calls   int
	failed  bool
	after   int  // bytes delivered when it failed
	full    bool // all bytes asked for came with the failure
	given   int
}

func (r *failReader) Read(p []byte) (int, error) {
	i := r.calls
	r.calls++
	if r.calls > 1<<20 {
		panic("the source was asked more than 2^20 times")
	}
	take := func(n int) int {
		if r.step > 0 && n > r.step {
			n = r.step
		}
		if n > len(p) {
			n = len(p)
		}
		n = copy(p[:n], r.b)
		r.b = r.b[n:]
		r.given += n
		return n
	}
	if i == r.k || i > r.k && !r.once && r.failed {
		n := 0
		if i == r.k {
			n = take([]int{0, 1, 1 << 30}[r.mode])
			r.after = r.given
			r.full = n == len(p)
		}
		r.failed = true
		return n, errSource
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	return take(1 << 30), nil
}

// delivered is a binary whose data comes from a reader.
type delivered struct {
	format.Binary
	in io.Reader
}

func (d delivered) Data() io.Reader { return d.in }

// streamedRec chooses a recording with two binaries, one of them, and returns
// the file as well.
func streamedRec(c *eng.Ctx) (m *Rec, which int, compress bool, file []byte, wantN int) {
	sizes := []int{0, 1, 10, 600, 70000}
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*i>>3 + i)
		}
		return b
	}
	m = &Rec{ID: "r", Name: "streamed", Bins: []Bin{{Name: "a", Data: data(sizes[c.Free(len(sizes))]), Meta: Meta{{"k", Val{Kind: VStr, S: "v"}}}}, {Name: "b", Data: data(sizes[c.Free(4)])}},
		Recs: []*Rec{{ID: "kid", Colls: []Coll{posColl(2)}}}}
	which, compress = c.Free(2), c.Free(2) == 1
	var err error
	file, wantN, err = writeStreamed(c, m, which, bytes.NewReader(m.Bins[which].Data), compress)
	if err != nil {
		c.Fail("a recording with binaries of %d and %d bytes is not written: %v", len(m.Bins[0].Data), len(m.Bins[1].Data), err)
	}
	return
}

// writeStreamed writes m; the data of one binary comes from in.
func writeStreamed(c *eng.Ctx, m *Rec, which int, in io.Reader, compress bool) (b []byte, n int, err error) {
	var out bytes.Buffer
	rec := build(m, func(r *Rec, l *lists) {
		if len(l.bins) > 0 {
			l.bins[which] = delivered{l.bins[which], in}
		}
	})
	c.NoPanic("writing", func() {
		n, err = rapio.NewWriter(Encs(Full), compress, &out, rapio.Raw64).Write(rec)
	})
	return out.Bytes(), n, err
}

func init() {
	same := func(c *eng.Ctx, f *FileCase, how string, rec format.Recording, n int, err error, wantN int) {
		if err != nil {
			c.Fail("%s delivered %s: %v", f.Name, how, err)
		}
		if d := Diff(f.Want, Complete(c, rec), f.Exact()); d != "" {
			c.Fail("%s delivered %s loads differently: %s", f.Name, how, d)
		}
		if n != wantN {
			c.Fail("%s delivered %s: %d bytes read, delivered whole %d", f.Name, how, n, wantN)
		}
	}
	whole := func(c *eng.Ctx, f *FileCase) int {
		_, n, err := Read(c, bytes.NewReader(f.Raw))
		if err != nil {
			c.Skip()
		}
		return n
	}
	reg(&eng.Check{
		ID: "C09", Level: "fault_enumeration",
		Rule:        "for every file of a family: all ways to split it in which at most D Read calls deviate (one byte, half, one less, nothing, last bytes with EOF), 8 uniform deliveries, and a source failure at every Read call under 3 chunkings and 3 partial deliveries; every kind of standard source; the same for the data of binaries that are written",
		Assumptions: []string{"the source obeys io.Reader; a source failure is any error but io.EOF"},
		Phases: []eng.Phase{
			{Name: "uniform", Bound: "every file of both families x 8 uniform deliveries", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				mode := c.Free(numModes)
				c.Describe(func() string { return fmt.Sprintf("%s delivery mode %d", f.Name, mode) })
				wn := whole(c, f)
				rec, n, err := Read(c, &slowReader{b: f.Raw, mode: mode})
				same(c, f, fmt.Sprint("in mode ", mode), rec, n, err, wn)
				c.State(f.Name, mode, n)
			}},
			sourcesPhase(),
			{Name: "splits", Bound: "every file of both families, at most D Read calls deviate", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				wn := whole(c, f)
				r := &chooseReader{c: c, b: f.Raw, max: 1 << 20}
				c.Describe(func() string { return fmt.Sprintf("%s in %d reads", f.Name, r.calls) })
				rec, n, err := Read(c, r)
				same(c, f, "in pieces", rec, n, err, wn)
				c.State(f.Name, r.calls, n)
			}},
			{Name: "splits of small files", Bound: "9 files of both versions, at most D Read calls deviate", Quick: 2, Thor: 3, Body: func(c *eng.Ctx) {
				var fs []*FileCase
				for i, f := range Family() {
					if i == 0 || i == 1 || i == 3 || i == 10 {
						fs = append(fs, f)
					}
				}
				fs = append(fs, FamilyV1()[:4]...)
				f := fs[c.Free(len(fs))]
				wn := whole(c, f)
				r := &chooseReader{c: c, b: f.Raw, max: 1 << 20}
				c.Describe(func() string { return fmt.Sprintf("%s in %d reads", f.Name, r.calls) })
				rec, n, err := Read(c, r)
				same(c, f, "in pieces", rec, n, err, wn)
				c.State(f.Name, r.calls, n)
			}},
			sizesPhase(257, 2049, ", 8 uniform deliveries", func(c *eng.Ctx, m *Rec) {
				mode := c.Free(numModes)
				file := Encode(m, Full, Order).Bytes()
				rec, n, err := Read(c, &slowReader{b: file, mode: mode})
				if err != nil || n != len(file) {
					c.Fail("delivered in mode %d: %d bytes instead of %d, %v", mode, n, len(file), err)
				}
				Same(c, fmt.Sprint("delivered in mode ", mode), m, Complete(c, rec), nil)
				c.State(mode, n)
			}),
			{Name: "large", Bound: "recordings of 12 KB and 100 KB (binary) in 8 uniform deliveries, 3 technique sets, compressed or not", Body: func(c *eng.Ctx) {
				t := []Tech{{}, {Time: 2, Pos: 2, Euler: 2, Float: 2}, {Time: 1, Pos: 1, Euler: 1, Float: 1}}[c.Free(3)]
				t.Compress = c.Free(2) == 1
				mode := c.Free(numModes)
				m := bigRec(64)
				if c.Free(2) == 1 {
					m = &Rec{ID: "bins", Bins: []Bin{{Name: "a", Data: noise(100000)}, {Name: "b", Data: noise(7000)}}, Recs: []*Rec{{ID: "c", Bins: []Bin{{Name: "d", Data: noise(33000)}}}}}
				}
				file, _ := MustWrite(c, m.Real(), t)
				full, wn, err := Read(c, bytes.NewReader(file))
				if err != nil {
					c.Skip()
				}
				want := Complete(c, full)
				rec, n, err := Read(c, &slowReader{b: file, mode: mode})
				if err != nil || n != wn {
					c.Fail("large recording delivered in mode %d: %d bytes instead of %d, %v", mode, n, wn, err)
				}
				Same(c, fmt.Sprint("large recording delivered in mode ", mode), want, Complete(c, rec), nil)
				c.State(mode, file[:200])
			}},
			{Name: "failures", Bound: "every file of both families, the source fails at every Read call (no, one or all bytes delivered with the error; once or for good) under 3 chunkings", Body: func(c *eng.Ctx) {
				fs := AllFiles()
				f := fs[c.Free(len(fs))]
				step := []int{0, 1, 7}[c.Free(3)]
				if f.V1 && step == 0 {
					step = 4096
				}
				dry := &failReader{b: f.Raw, k: -1, step: step}
				if _, _, err := Read(c, dry); err != nil {
					c.Skip()
				}
				r := &failReader{b: f.Raw, k: c.Free(dry.calls), step: step, mode: c.Free(3), once: c.Free(2) == 1}
				rec, _, err := Read(c, r)
				c.Describe(func() string {
					return fmt.Sprintf("%s: source fails at read %d of %d (step %d, mode %d) after %d of %d bytes", f.Name, r.k, dry.calls, step, r.mode, r.after, len(f.Raw))
				})
				if !r.failed {
					c.Skip()
				}
				c.State(f.Name, r.k, step, r.mode, r.once, fmt.Sprint(err))
				if err != nil {
					if rec != nil {
						c.Fail("%s: the source failed, the load reports %q and returns a recording", f.Name, err)
					}
					return
				}
				got := Complete(c, rec)
				if r.after < len(f.Raw) && !f.V1 && !f.T.Compress && !(r.once && r.full) {
					c.Fail("%s: the source failed after %d of %d bytes and the load reports success: %s", f.Name, r.after, len(f.Raw), Diff(f.Want, got, f.Exact()))
				}
				if d := Diff(f.Want, got, f.Exact()); d != "" {
					c.Fail("%s: the source failed after %d of %d bytes and a different recording is loaded: %s", f.Name, r.after, len(f.Raw), d)
				}
			}},
			{Name: "binaries of a write", Bound: "a recording is written whose 2 binaries of 0 to 70000 bytes deliver their data in 8 uniform deliveries or with at most D deviating reads, compressed or not: the file is the one of binaries in memory", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				m, which, compress, want, wantN := streamedRec(c)
				var in io.Reader
				how := c.Free(numModes + 1)
				if how < numModes {
					in = &slowReader{b: m.Bins[which].Data, mode: how}
				} else {
					in = &chooseReader{c: c, b: m.Bins[which].Data, max: 1 << 20}
				}
				c.Describe(func() string {
					return fmt.Sprintf("binary %d of %d and %d bytes delivered in mode %d, compressed %v", which, len(m.Bins[0].Data), len(m.Bins[1].Data), how, compress)
				})
				got, n, err := writeStreamed(c, m, which, in, compress)
				if err != nil || n != wantN || !bytes.Equal(got, want) {
					c.Fail("binary %d of %d and %d bytes delivered in mode %d, compressed %v: %d bytes written (%d in memory), error %v; the file is the same: %v", which, len(m.Bins[0].Data), len(m.Bins[1].Data), how, compress, n, wantN, err, bytes.Equal(got, want))
				}
				c.State(which, how, compress, n)
			}},
			{Name: "binaries of a write that fail", Bound: "the same recordings, the data of a binary fails at every read (no, one or all bytes delivered with the error; once or for good) under 3 chunkings: the write fails, or the file is the complete one", Body: func(c *eng.Ctx) {
				m, which, compress, want, wantN := streamedRec(c)
				data := m.Bins[which].Data
				step := []int{0, 7, 600}[c.Free(3)]
				if len(data) > 100*step && step > 0 {
					c.Skip()
				}
				dry := &failReader{b: data, k: -1, step: step}
				if _, _, err := writeStreamed(c, m, which, dry, compress); err != nil {
					c.Skip()
				}
				r := &failReader{b: data, k: c.Free(dry.calls), step: step, mode: c.Free(3), once: c.Free(2) == 1}
				c.Describe(func() string {
					return fmt.Sprintf("binary %d of %d and %d bytes fails at read %d of %d (mode %d), compressed %v", which, len(m.Bins[0].Data), len(m.Bins[1].Data), r.k, dry.calls, r.mode, compress)
				})
				got, n, err := writeStreamed(c, m, which, r, compress)
				if !r.failed {
					c.Skip()
				}
				if err == nil && (r.after < len(data) || n != wantN || !bytes.Equal(got, want)) {
					c.Fail("binary %d of %d bytes failed at read %d after %d bytes and the write reports success: %d bytes (complete %d)", which, len(data), r.k, r.after, n, wantN)
				}
				c.State(which, r.k, r.mode, r.once, compress, err == nil)
			}},
			{Name: "json", Bound: "3 JSON documents on standard input of from-json: 8 uniform deliveries, at most D deviating reads, and a failure at every read of 16 bytes", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				docs := jsonDocs()
				doc := []byte(docs[c.Free(len(docs))])
				want, err := fromJSONCmd(c, bytes.NewReader(doc))
				if err != nil {
					c.Skip()
				}
				pieces(c, doc, func(in io.Reader) (string, error) {
					b, err := fromJSONCmd(c, in)
					return string(b), err
				}, string(want))
			}},
			{Name: "csv", Bound: "3 CSV tables: 8 uniform deliveries, at most D deviating reads, and a failure at every read of 16 bytes", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				docs := []string{"id,name,time,x,y,z\n", "id,name,time,x,y,z\n1,a,0,1,2,3\n2,b,0.5,4,5,6\n1,a,1,7,8,9\n", "time, name ,z,x,y,id,extra\r\n1,\"q\"\"uote, d\",3,1,2,i,\"multi\nline\"\r\n2,\"q\"\"uote, d\",3,1,2,i,x"}
				doc := []byte(docs[c.Free(len(docs))])
				run := func(in io.Reader) (s string, err error) {
					c.NoPanic("CSV import", func() {
						var rec format.Recording
						rec, err = cli.ZZRecordingFromCSV(in)
						if err == nil {
							s = Complete(c, rec).Hash()
						} else if rec != nil {
							c.Fail("CSV import returns an error and a recording")
						}
					})
					return
				}
				want, err := run(bytes.NewReader(doc))
				if err != nil {
					c.Skip()
				}
				pieces(c, doc, run, want)
			}},
		},
	})
}

// pieces checks that run gives want however doc is delivered, and an error when
// the source fails.
func pieces(c *eng.Ctx, doc []byte, run func(io.Reader) (string, error), want string) {
	var in io.Reader
	how := c.Free(3)
	switch how {
	case 0:
		m := c.Free(numModes)
		c.Describe(func() string { return fmt.Sprintf("%d bytes in mode %d", len(doc), m) })
		in = &slowReader{b: doc, mode: m}
	case 1:
		in = &chooseReader{c: c, b: doc, max: 60}
		c.Describe(func() string { return fmt.Sprintf("%d bytes in pieces", len(doc)) })
	case 2:
		k := c.Free((len(doc)+15)/16 + 1)
		r := &failReader{b: doc, k: k, step: 16, mode: c.Free(3), once: c.Free(2) == 1}
		c.Describe(func() string { return fmt.Sprintf("%d bytes, failure at read %d", len(doc), k) })
		s, err := run(r)
		c.State(doc, k, r.mode, fmt.Sprint(err))
		if r.once && r.full && err == nil && s == want {
			return // a passing failure that cost no byte
		}
		if r.failed && err == nil {
			c.Fail("the source failed after %d of %d bytes and the import reports success", r.after, len(doc))
		}
		if r.failed && s != "" {
			c.Fail("the source failed after %d of %d bytes and the import gave output", r.after, len(doc))
		}
		return
	}
	s, err := run(in)
	c.State(doc, how, s)
	if err != nil {
		c.Fail("the import fails when its input comes in pieces: %v", err)
	}
	if s != want {
		c.Fail("the result depends on how the input is delivered")
	}
}

// app runs a CLI command.
func app(c *eng.Ctx, in io.Reader, out io.Writer, args ...string) (err error) {
	c.NoPanic("command "+args[0], func() {
		err = cli.ZZBuildApp(in, out, io.Discard).Run(append([]string{"rap"}, args...))
	})
	return
}

func fromJSONCmd(c *eng.Ctx, in io.Reader) ([]byte, error) {
	var b bytes.Buffer
	err := app(c, in, &b, "from-json")
	return b.Bytes(), err
}

func jsonDocs() []string {
	return []string{
		`{"id":"i","name":"n"}`,
		`{"id":"i","name":"n","metadata":{"a":1,"b":"two","c":{"x":1,"y":2,"z":3}},"collections":[{"name":"Position","type":"recolude.position","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}},{"time":2,"data":{"x":3,"y":4,"z":5}}]}]}`,
		`{"id":"i","name":"n","collections":[{"name":"e","type":"recolude.event","captures":[{"time":1,"data":{"name":"go","metadata":{"k":true}}}]},{"name":"r","type":"recolude.euler","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}}]}],"recordings":[{"id":"c","name":"child"},{"id":"d","name":"other","recordings":[{"id":"g","name":"grand"}]}]}`,
	}
}
