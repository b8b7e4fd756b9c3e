package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime/metrics"
	"syscall"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// mutant is one malformed (or not) file.
type mutant struct {
	desc string
	file []byte
	size int // bytes after decompression
}

// numbers are the values put in place of a count, size or index.
var numbers = func() [][]byte {
	uv := func(x uint64) []byte {
		var b []byte
		for x >= 0x80 {
			b = append(b, byte(x)|0x80)
			x >>= 7
		}
		return append(b, byte(x))
	}
	var out [][]byte
	for _, x := range []uint64{0, 1, 2, 5, 127, 128, 300, 1 << 14, 1 << 16, 1 << 20, 1 << 24, 1<<27 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 34, 1 << 40, 1 << 53, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		out = append(out, uv(x))
	}
	over := bytes.Repeat([]byte{0xff}, 9)
	out = append(out, append(append([]byte{}, over...), 2), append(append([]byte{}, over...), 0xff, 1), []byte{0x80, 0}, []byte{0x81, 0x80, 0x80, 0})
	return out
}()

// plain lists the files whose body can be changed before compression: version 2
// images (compressed or not) and version 1 protobuf messages.
func plain() []*FileCase { return AllFiles() }

func (f *FileCase) plainBytes() []byte {
	if f.V1 {
		return f.V1R.Proto()
	}
	return append(append([]byte{}, f.Im.Head...), f.Im.Body...)
}

// pack makes a file of changed plain bytes; at is where the change begins.
func (f *FileCase) pack(b []byte, at int) []byte {
	if f.V1 {
		return V1File(b, 1, 1)
	}
	h := len(f.Im.Head)
	if at < h {
		// the head grows or shrinks with the change
		h += len(b) - len(f.Im.Head) - len(f.Im.Body)
		if h < at {
			h = at
		}
		if h > len(b) {
			h = len(b)
		}
	}
	im := f.Im
	im.Head, im.Body = b[:h], b[h:]
	return im.Bytes()
}

func splice(b []byte, at, del int, ins []byte) []byte {
	out := append([]byte{}, b[:at]...)
	out = append(out, ins...)
	if at+del < len(b) {
		out = append(out, b[at+del:]...)
	}
	return out
}

type mutPhase struct {
	name, bound string
	quick, thor int
	onlyThor    bool
	gen         func(c *eng.Ctx) mutant
}

func (f *FileCase) mut(what string, b []byte, at int) mutant {
	return mutant{desc: f.Name + ": " + what, file: f.pack(b, at), size: len(b)}
}

var shortAlphabet = []byte{0, 1, 2, 3, 0x0d, 0x7f, 0x80, 0xff}

// prefixes of files after which every short string is tried.
func prefixes() (out [][]byte, names []string) {
	add := func(n string, parts ...[]byte) { out = append(out, bytes.Join(parts, nil)); names = append(names, n) }
	encs := []byte{5}
	for _, k := range Order {
		encs = append(encs, byte(len(k)))
		encs = append(encs, k...)
	}
	encs = append(encs, 0, 0, 0, 0, 0)
	head := append([]byte{2}, encs...)
	// headers: event has names ["a"] and keys ["k"]; enum has members ["m","n"]
	hdr := bytes.Join([][]byte{{6, 1, 1, 'a', 1, 1, 'k'}, {0}, {0}, {5, 2, 1, 'm', 1, 'n'}, {0}}, nil)
	add("nothing")
	add("version 2", []byte{2})
	add("version 1", []byte{1})
	add("no encoder", []byte{2, 0, 0})
	add("all encoders", head, []byte{0})
	add("headers", head, []byte{0}, hdr)
	add("keys", head, []byte{0}, hdr, []byte{1, 1, 'k'})
	add("metadata value", head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 1, 0})
	add("streams", head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0})
	for i := range Order {
		add("a stream of "+Order[i], head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0, 1, byte(i), 0})
		// one capture at time 0 (32 bit), body of 5 bytes
		add("the data of "+Order[i], head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0, 1, byte(i), 0, 1, 1, 0, 0, 0, 0, 5})
	}
	add("references", head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0, 0})
	add("binaries", head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0, 0, 0})
	add("recordings", head, []byte{0}, hdr, []byte{1, 1, 'k', 0, 0, 0, 0, 0, 0})
	return
}

// shortTail completes short strings so that what they begin can be finished.
var shortTail = bytes.Repeat([]byte{0}, 40)

// nest builds a file nested d levels deep in one of several ways.
func nest(way, d int) []byte {
	var b bytes.Buffer
	rec := func(meta []byte, streams, kids byte) {
		b.Write([]byte{0, 0})
		b.Write(meta)
		b.Write([]byte{streams, 0, 0, kids})
	}
	b.Write([]byte{2, 0, 0})
	switch way {
	case 0: // recordings, unfinished
		b.Write([]byte{0})
		for i := 0; i < d; i++ {
			rec([]byte{0}, 0, 1)
		}
	case 1: // recordings, finished
		b.Write([]byte{0})
		for i := 0; i < d; i++ {
			rec([]byte{0}, 0, 1)
		}
		rec([]byte{0}, 0, 0)
	case 2, 3: // metadata blocks
		b.Write([]byte{1, 1, 'k', 0, 0, 1, 0})
		for i := 0; i < d; i++ {
			b.Write([]byte{11, 1, 0})
		}
		if way == 3 {
			b.Write([]byte{3, 0, 0, 0, 0})
		}
	case 6, 7: // every level claims far more than there is
		if way == 6 {
			b.Write([]byte{0})
			for i := 0; i < d; i++ {
				rec([]byte{0}, 0, 0xff)
				b.Write([]byte{0xff, 0xff, 0x7f})
			}
			break
		}
		b.Write([]byte{1, 1, 'k', 0, 0, 1, 0})
		for i := 0; i < d; i++ {
			b.Write([]byte{24, 0xff, 0xff, 0x7f, 1, 0})
		}
	case 4, 5: // arrays of blocks of arrays ...
		b.Write([]byte{1, 1, 'k', 0, 0, 1, 0})
		for i := 0; i < d; i++ {
			b.Write([]byte{24, 1, 1, 0})
		}
		if way == 5 {
			b.Write([]byte{3, 0, 0, 0, 0})
		}
	}
	return b.Bytes()
}

func mutPhases() []mutPhase {
	all := func(c *eng.Ctx) *FileCase { fs := plain(); return fs[c.Free(len(fs))] }
	small := func(c *eng.Ctx) *FileCase {
		var fs []*FileCase
		for _, f := range plain() {
			if !(f.V1 || f.T.Compress) && len(f.plainBytes()) <= 75 {
				fs = append(fs, f)
			}
		}
		return fs[c.Free(len(fs))]
	}
	return []mutPhase{
		{name: "bytes", bound: "every byte of every file of both families, before compression, set to every value", gen: func(c *eng.Ctx) mutant {
			f := all(c)
			b := f.plainBytes()
			if len(b) == 0 {
				c.Skip()
			}
			k := c.Free(len(b))
			v := byte(c.Free(256))
			if b[k] == v {
				c.Skip()
			}
			old := b[k]
			b[k] = v
			return f.mut(fmt.Sprintf("byte %d of %d set from %#x to %#x", k, len(b), old, v), b, k)
		}},
		{name: "stored bytes", bound: "every stored byte of every compressed file and every version 1 file set to every value", gen: func(c *eng.Ctx) mutant {
			fs := plain()
			f := fs[c.Free(len(fs))]
			if !f.V1 && !f.T.Compress {
				c.Skip()
			}
			b := append([]byte{}, f.Raw...)
			k := c.Free(len(b))
			v := byte(c.Free(256))
			if b[k] == v {
				c.Skip()
			}
			b[k] = v
			return mutant{fmt.Sprintf("%s: stored byte %d of %d set to %#x", f.Name, k, len(b), v), b, 40 * len(f.plainBytes())}
		}},
		{name: "numbers", bound: fmt.Sprintf("at every offset of every file, before compression, the byte replaced by one of %d counts from 0 to 2^64-1 (also overlong and overflowing ones), or such a count inserted", len(numbers)), gen: func(c *eng.Ctx) mutant {
			f := all(c)
			b := f.plainBytes()
			k := c.Free(len(b) + 1)
			n := c.Free(len(numbers))
			del := c.Free(2)
			return f.mut(fmt.Sprintf("number %x at %d replacing %d", numbers[n], k, del), splice(b, k, del, numbers[n]), k)
		}},
		{name: "splices", bound: "at every offset of every file, before compression: 1-4 bytes removed, one of 5 bytes inserted, 1-4 bytes repeated, the rest cut off, the file continued with itself", gen: func(c *eng.Ctx) mutant {
			f := all(c)
			b := f.plainBytes()
			k := c.Free(len(b) + 1)
			op := c.Free(15)
			switch {
			case op < 4:
				return f.mut(fmt.Sprintf("%d bytes at %d removed", op+1, k), splice(b, k, op+1, nil), k)
			case op < 9:
				x := []byte{0, 1, 0x7f, 0x80, 0xff}[op-4]
				return f.mut(fmt.Sprintf("byte %#x inserted at %d", x, k), splice(b, k, 0, []byte{x}), k)
			case op < 13:
				n := op - 8
				if k+n > len(b) {
					c.Skip()
				}
				return f.mut(fmt.Sprintf("%d bytes at %d repeated", n, k), splice(b, k, 0, b[k:k+n]), k)
			case op == 13:
				return f.mut(fmt.Sprintf("cut at %d", k), b[:k], k)
			}
			return f.mut(fmt.Sprintf("continued at %d with itself", k), append(b[:k:k], b...), k)
		}},
		{name: "short", bound: "24 prefixes of files, each followed by every string of at most L bytes over 8 byte values (L 4, thorough 6), with and without a tail of zeros; and every string of at most 2 bytes", gen: func(c *eng.Ctx) mutant {
			ps, names := prefixes()
			p := c.Free(len(ps))
			max := 4
			if c.Tier == "thorough" {
				max = 6
			}
			tail := c.Free(2)
			var s []byte
			if p == 0 && c.Free(2) == 1 {
				n := c.Free(3)
				for i := 0; i < n; i++ {
					s = append(s, byte(c.Free(256)))
				}
			} else {
				n := c.Free(max + 1)
				for i := 0; i < n; i++ {
					s = append(s, shortAlphabet[c.Free(len(shortAlphabet))])
				}
			}
			b := append(append([]byte{}, ps[p]...), s...)
			if tail == 1 {
				b = append(b, shortTail...)
			}
			return mutant{fmt.Sprintf("%s then %x tail %d", names[p], s, tail), b, len(b)}
		}},
		{name: "metadata codes", bound: "every value code followed by every string of at most L bytes over 8 byte values (L 3, thorough 5), in a recording and in an event", gen: func(c *eng.Ctx) mutant {
			ps, names := prefixes()
			code := c.Free(256)
			max := 3
			if c.Tier == "thorough" && code <= 40 {
				max = 5
			}
			n := c.Free(max + 1)
			var s []byte
			for i := 0; i < n; i++ {
				s = append(s, shortAlphabet[c.Free(len(shortAlphabet))])
			}
			p := 7
			b := append(append([]byte{}, ps[p]...), byte(code))
			if c.Free(2) == 1 {
				p = 9 // event stream, index 0
				val := append([]byte{byte(code)}, s...)
				b = append(append([]byte{}, ps[p]...), 1, 1, 0, 0, 0, 0, byte(3+len(val)), 0, 1, 0, byte(code))
			}
			if c.Free(2) == 1 {
				b = append(append(b, s...), shortTail...)
			} else {
				b = append(b, s...)
			}
			return mutant{fmt.Sprintf("%s value %d %x", names[p], code, s), b, len(b)}
		}},
		{name: "v1 container", bound: "version 1 headers: 14 counts x 22 sizes x whole, cut or extended contents", gen: func(c *eng.Ctx) mutant {
			fs := FamilyV1()
			f := fs[c.Free(len(fs))]
			body := f.Raw[13:]
			counts := []uint32{1, 0, 2, 3, 127, 128, 255, 256, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2}
			n := uint64(len(body))
			sizes := []uint64{n, n - 1, n + 1, 0, 1, n / 2, 2 * n, 127, 255, 256, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 34, 1 << 40, 1 << 53, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
			cn := counts[c.Free(len(counts))]
			sz := sizes[c.Free(len(sizes))]
			bd := [][]byte{body, body[:len(body)/2], append(append([]byte{}, body...), body...), {}}[c.Free(4)]
			return mutant{fmt.Sprintf("%s: count %d size %d contents %d", f.Name, cn, sz, len(bd)), V1Wrap(bd, cn, sz), 1 << 10}
		}},
		{name: "deep", bound: "recordings, metadata blocks and arrays of blocks nested 1 to 2^21 (thorough 2^23) deep, finished or not, compressed or not", gen: func(c *eng.Ctx) mutant {
			way := c.Free(8)
			e := 22
			if c.Tier == "thorough" {
				e = 24
			}
			d := 1 << uint(c.Free(e))
			b := nest(way, d)
			m := mutant{fmt.Sprintf("nested %d deep in way %d", d, way), b, len(b)}
			if c.Free(2) == 1 {
				m.file = Image{Head: []byte{2, 0, 1}, Body: b[3:], Compress: true}.Bytes()
				m.desc += ", compressed"
			}
			return m
		}},
		{name: "pairs", bound: "every two bytes of every small uncompressed file (up to 75 bytes) set to two of 8 values", onlyThor: true, gen: func(c *eng.Ctx) mutant {
			f := small(c)
			b := f.plainBytes()
			i := c.Free(len(b))
			j := c.Free(len(b))
			if j <= i {
				c.Skip()
			}
			b[i] = shortAlphabet[c.Free(len(shortAlphabet))]
			b[j] = shortAlphabet[c.Free(len(shortAlphabet))]
			return f.mut(fmt.Sprintf("bytes %d, %d set to %#x, %#x", i, j, b[i], b[j]), b, i)
		}},
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// load reads a mutant within the budget for its size.
func load(c *eng.Ctx, m mutant) (format.Recording, error) {
	c.Describe(func() string {
		if len(m.file) > 400 {
			return m.desc
		}
		return m.desc + " = " + hex.EncodeToString(m.file)
	})
	a, t := allocated(), cpu()
	rec, _, err := Read(c, bytes.NewReader(m.file))
	if used, max := allocated()-a, uint64(16<<20+4096*m.size); used > max {
		c.Fail("%s: loading %d bytes allocated %d bytes", m.desc, m.size, used)
	}
	if used, max := cpu()-t, 3*time.Second+time.Duration(m.size)*2*time.Microsecond; used > max {
		c.Fail("%s: loading %d bytes took %v", m.desc, m.size, used)
	}
	if (rec == nil) == (err == nil) {
		c.Fail("%s: recording %v and error %v", m.desc, rec, err)
	}
	return rec, err
}

func init() {
	var ps []eng.Phase
	for _, p := range mutPhases() {
		p := p
		ps = append(ps, eng.Phase{Name: p.name, Bound: p.bound, OnlyThor: p.onlyThor, Body: func(c *eng.Ctx) {
			m := p.gen(c)
			rec, err := load(c, m)
			c.State(fmt.Sprint(err), rec == nil)
		}})
	}
	reg(&eng.Check{
		ID: "C10", Level: "fault_enumeration",
		Rule:        "every corruption of a menu (every byte to every value, counts and sizes replaced by 27 numbers up to 2^64-1, splices, all short strings after 24 prefixes, deep nesting) applied at every offset of every file of both families; each is one execution of the real reader under an address space limit, an allocation bound of 16 MB + 4096 bytes per byte of input and a CPU bound of 3 s + 2 us per byte",
		Assumptions: []string{"bytes of input are counted after decompression"},
		Phases:      ps,
	})
	var qs []eng.Phase
	for _, p := range mutPhases() {
		p := p
		if p.name == "deep" {
			continue
		}
		qs = append(qs, eng.Phase{Name: p.name, Bound: p.bound, OnlyThor: p.onlyThor, Body: func(c *eng.Ctx) {
			m := p.gen(c)
			c.Describe(func() string { return m.desc + " = " + hex.EncodeToString(m.file) })
			rec, _, err := Read(c, bytes.NewReader(m.file))
			c.State(fmt.Sprint(err), rec == nil)
			if err != nil {
				if rec != nil {
					c.Fail("%s: an error and a recording", m.desc)
				}
				return
			}
			usable(c, m, rec)
		}})
	}
	good := func(c *eng.Ctx, m *Rec) {
		t := fewTechs[c.Free(2)]
		t.Compress = t.Time == 1
		mt := mutant{file: Encode(m, t, Order).Bytes(), desc: "an unbroken file"}
		rec, _, err := Read(c, bytes.NewReader(mt.file))
		if err != nil {
			c.Fail("an unbroken file does not load: %v", err)
		}
		c.State(mt.file)
		usable(c, mt, rec)
	}
	qs = append(qs, sizesPhase(1025, 5000, ", unbroken files", good), eng.Phase{Name: "bare", Bound: "unbroken files of every product of empty or short parts", Body: func(c *eng.Ctx) {
		m := bare(c)
		c.Describe(m.String)
		good(c, m)
	}})
	reg(&eng.Check{
		ID: "C11", Level: "model_checking",
		Assumptions: []string{"the enumerated files are those of C10"},
		Phases:      qs,
	})
}

// usable is the oracle of C11 for a loaded recording.
func usable(c *eng.Ctx, m mutant, rec format.Recording) {
	got := Complete(c, rec)
	c.NoPanic("using the recording", func() { useAll(rec) })
	if d, err := DecodeLenient(m.file); err == nil {
		if x := Diff(d.Rec, got, nearFor(d)); x != "" {
			c.Fail("%s: loads as something else than it says: %s", m.desc, x)
		}
	} else if m.file[0] == 2 {
		c.Fail("%s: loads although %v", m.desc, err)
	}
	c.State(got.Hash())
	file, _ := MustWrite(c, rec, Full)
	again, _, err := Read(c, bytes.NewReader(file))
	if err != nil {
		c.Fail("%s: loads, is written, and cannot be read: %v", m.desc, err)
	}
	if x := Diff(got, Complete(c, again), nil); x != "" {
		c.Fail("%s: written again it reads back differently: %s", m.desc, x)
	}
}

// useAll touches everything of a recording a caller can.
func useAll(r format.Recording) {
	for _, col := range r.CaptureCollections() {
		_, _, _ = col.Name(), col.Signature(), col.Length()
		if col.Length() != len(col.Captures()) {
			panic("Length differs from the number of captures")
		}
		if col.Length() > 0 {
			_, _ = col.Start(), col.End()
		}
		for _, cp := range col.Captures() {
			_, _ = cp.Time(), cp.String()
		}
		col.Slice(0, 1)
	}
	for _, p := range r.Metadata().Mapping() {
		_, _, _ = p.Code(), p.String(), p.Data()
		json.Marshal(p)
	}
	json.Marshal(r.Metadata())
	format.RecordingDuration(r)
	format.Slice(r, format.BeginningOfSlice(0), format.EndOfSlice(1))
	format.Validate(r, format.RequireChronologicalCapture(true))
	for _, x := range r.Recordings() {
		useAll(x)
	}
}
