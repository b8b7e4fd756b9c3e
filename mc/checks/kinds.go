package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

var (
	before = []byte("bytes that were read before")
	behind = []byte{0, 1, 2, 0xA5, 0x5A, 'b', 'e', 'h', 'i', 'n', 'd'}
)

var sourceKinds = []string{"bytes.Reader", "bytes.Reader in the middle", "bytes.Buffer", "strings.Reader in the middle", "bufio.Reader of 16 bytes", "bufio.Reader of 4 KB in the middle", "file", "file in the middle",
	"section", "limited reader over a file", "limited reader in the middle of memory", "two readers one after the other", "tee", "pipe", "bare reader"}

// sourceOf returns a source that delivers b and then behind.
func sourceOf(c *eng.Ctx, kind int, b []byte, dir string) io.Reader {
	all := append(append(append([]byte{}, before...), b...), behind...)
	rest := all[len(before):]
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(before))); err != nil {
			panic(err)
		}
		return r
	}
	file := func(b []byte) *os.File {
		p := filepath.Join(dir, "source")
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		return f
	}
	switch kind {
	case 0:
		return bytes.NewReader(rest)
	case 1:
		return skip(bytes.NewReader(all))
	case 2:
		return bytes.NewBuffer(rest)
	case 3:
		return skip(strings.NewReader(string(all)))
	case 4:
		return bufio.NewReaderSize(bytes.NewReader(rest), 16)
	case 5:
		return skip(bufio.NewReaderSize(bytes.NewReader(all), 4096))
	case 6:
		return file(rest)
	case 7:
		return skip(file(all))
	case 8:
		return io.NewSectionReader(bytes.NewReader(all), int64(len(before)), int64(len(rest)))
	case 9:
		return io.LimitReader(skip(file(append(append([]byte{}, all...), "more of it"...))), int64(len(rest)))
	case 10:
		return io.LimitReader(skip(bytes.NewReader(append(append([]byte{}, all...), "more of it"...))), int64(len(rest)))
	case 11:
		return io.MultiReader(bytes.NewReader(rest[:len(b)/2]), bytes.NewReader(rest[len(b)/2:]))
	case 12:
		return io.TeeReader(bytes.NewReader(rest), io.Discard)
	case 13:
		r, w := io.Pipe()
		go func() {
			w.Write(rest[:len(b)/3])
			w.Write(rest[len(b)/3:])
			w.Close()
		}()
		return r
	}
	return onlyReader{bytes.NewReader(rest)}
}

func sourcesPhase() eng.Phase {
	return eng.Phase{Name: "kinds of source", Bound: fmt.Sprintf("every file of both families from each of %d kinds of source (buffers, files, sections, pipes, limited, buffered or joined readers, at their start or in the middle, with other bytes behind): the same recording and count, and, for uncompressed files, the bytes behind are still there", len(sourceKinds)), Body: func(c *eng.Ctx) {
		fs := AllFiles()
		f := fs[c.Free(len(fs))]
		k := c.Free(len(sourceKinds))
		c.Describe(func() string { return f.Name + " from " + sourceKinds[k] })
		rec, wn, err := Read(c, onlyReader{bytes.NewReader(append(append([]byte{}, f.Raw...), behind...))})
		if err != nil {
			c.Skip()
		}
		dir, done := scratch(c)
		defer done()
		in := sourceOf(c, k, f.Raw, dir)
		if cl, ok := in.(io.Closer); ok {
			defer cl.Close()
		}
		rec, n, err := Read(c, in)
		if err != nil {
			c.Fail("%s from %s: %v", f.Name, sourceKinds[k], err)
		}
		if d := Diff(f.Want, Complete(c, rec), f.Exact()); d != "" {
			c.Fail("%s from %s loads differently: %s", f.Name, sourceKinds[k], d)
		}
		if n != wn {
			c.Fail("%s from %s: %d bytes read instead of %d", f.Name, sourceKinds[k], n, wn)
		}
		if !f.V1 && !f.T.Compress {
			if left, err := io.ReadAll(in); err != nil || !bytes.Equal(left, behind) {
				c.Fail("%s from %s: %d bytes are left behind the recording instead of %d, %v", f.Name, sourceKinds[k], len(left), len(behind), err)
			}
		}
		c.State(f.Name, k, n)
	}}
}

var destKinds = []string{"buffer with other bytes in it", "bufio.Writer of 16 bytes", "bufio.Writer of 64 KB", "new file", "file in the middle", "file to append to", "two destinations", "pipe", "bare writer"}

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

// destOf returns a destination and a function that returns all it holds.
func destOf(c *eng.Ctx, kind int, dir string) (io.Writer, func() []byte) {
	p := filepath.Join(dir, "destination")
	open := func(flag int) *os.File {
		f, err := os.OpenFile(p, flag|os.O_CREATE, 0o600)
		if err != nil {
			panic(err)
		}
		return f
	}
	holds := func() []byte {
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		return b
	}
	start := func(w io.Writer) {
		if _, err := w.Write(before); err != nil {
			panic(err)
		}
	}
	end := func(w io.Writer) {
		if _, err := w.Write(behind); err != nil {
			c.Fail("%s can not be used any more: %v", destKinds[kind], err)
		}
	}
	var b bytes.Buffer
	switch kind {
	case 1, 2:
		w := bufio.NewWriterSize(&b, []int{16, 65536}[kind-1])
		start(w)
		return w, func() []byte { end(w); w.Flush(); return b.Bytes() }
	case 3, 4:
		f := open(os.O_RDWR)
		if kind == 4 {
			// longer than anything that is written over it
			f.Write(bytes.Repeat([]byte{7}, 1<<20))
			f.Seek(0, 0)
		}
		start(f)
		return f, func() []byte {
			end(f)
			at, _ := f.Seek(0, 1)
			f.Close()
			h := holds()
			if kind == 4 {
				if len(h) != 1<<20 || len(bytes.Trim(h[at:], "\x07")) > 0 {
					c.Fail("writing into the middle of a file changes what comes behind (%d bytes left)", len(h))
				}
				h = h[:at]
			}
			return h
		}
	case 5:
		f := open(os.O_WRONLY)
		start(f)
		f.Close()
		f = open(os.O_WRONLY | os.O_APPEND)
		return f, func() []byte { end(f); f.Close(); return holds() }
	case 6:
		var b2 bytes.Buffer
		w := io.MultiWriter(&b, &b2)
		start(w)
		return w, func() []byte {
			end(w)
			if !bytes.Equal(b.Bytes(), b2.Bytes()) {
				c.Fail("two destinations get different bytes")
			}
			return b.Bytes()
		}
	case 7:
		r, w := io.Pipe()
		got := make(chan []byte)
		go func() {
			b, _ := io.ReadAll(r)
			got <- b
		}()
		start(w)
		return w, func() []byte { end(w); w.Close(); return <-got }
	}
	start(&b)
	if kind == 8 {
		return onlyWriter{&b}, func() []byte { end(&b); return b.Bytes() }
	}
	return &b, func() []byte { end(&b); return b.Bytes() }
}

func destsPhase() eng.Phase {
	return eng.Phase{Name: "kinds of destination", Bound: fmt.Sprintf("every version 2 recording of the file family written to each of %d kinds of destination (buffers, files, pipes, buffered writers, at their start or in the middle), with other bytes before and after: the same bytes and count", len(destKinds)), Body: func(c *eng.Ctx) {
		var fs []*FileCase
		for _, f := range Family() {
			if f.Orig != nil {
				fs = append(fs, f)
			}
		}
		f := fs[c.Free(len(fs))]
		k := c.Free(len(destKinds))
		c.Describe(func() string { return f.Name + " to " + destKinds[k] })
		want, wn := MustWrite(c, f.Orig.Real(), f.T)
		dir, done := scratch(c)
		defer done()
		out, all := destOf(c, k, dir)
		n, err := Write(c, f.Orig.Real(), f.T, out)
		if err != nil {
			c.Fail("%s is not written to %s: %v", f.Name, destKinds[k], err)
		}
		if n != wn {
			c.Fail("%s written to %s: %d bytes instead of %d", f.Name, destKinds[k], n, wn)
		}
		exp := append(append(append([]byte{}, before...), want...), behind...)
		if got := all(); !bytes.Equal(got, exp) {
			c.Fail("%s written to %s: it holds other bytes (%d instead of %d with those before and after)", f.Name, destKinds[k], len(got), len(exp))
		}
		c.State(f.Name, k, n)
	}}
}
