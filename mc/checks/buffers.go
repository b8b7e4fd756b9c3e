package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// reuse overwrites a buffer, as its owner may.
func reuse(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xEE
	}
}

// arrayProps are properties made from slices, and what overwrites these.
func arrayProps(i int) (metadata.Property, func()) {
	switch i {
	case 0:
		s := []string{"one", "two"}
		return metadata.NewStringArrayProperty(s), func() { s[0], s[1] = "x", "y" }
	case 1:
		s := []int{1, 2}
		return metadata.NewIntArrayProperty(s), func() { s[0], s[1] = 8, 9 }
	case 2:
		s := []float32{1, 2}
		return metadata.NewFloat32ArrayProperty(s), func() { s[0], s[1] = 8, 9 }
	case 3:
		s := []vector2.Float64{vector2.New(1., 2.), vector2.New(3., 4.)}
		return metadata.NewVector2ArrayProperty(s), func() { s[0], s[1] = s[1], s[1] }
	case 4:
		s := []vector3.Float64{vector3.New(1., 2., 3.), vector3.New(3., 4., 5.)}
		return metadata.NewVector3ArrayProperty(s), func() { s[0], s[1] = s[1], s[1] }
	case 5:
		s := []metadata.Block{metadata.NewBlock(map[string]metadata.Property{"a": metadata.NewIntProperty(1)}), metadata.EmptyBlock()}
		return metadata.NewMetadataArrayProperty(s), func() { s[0] = s[1] }
	case 6:
		s := []time.Time{time.Unix(1, 0), time.Unix(2, 0)}
		return metadata.NewTimestampArrayProperty(s), func() { s[0] = s[1] }
	case 7:
		s := append(make([]byte, 0, 64), 1, 2, 3)
		return metadata.NewBinaryArrayProperty(s), func() { reuse(s) }
	case 8:
		s := []bool{true, false, true}
		return metadata.NewBoolArrayProperty(s), func() { s[0], s[1] = false, true }
	}
	return nil, nil
}

const numArrayProps = 9

func buffersPhase() eng.Phase {
	return eng.Phase{Name: "buffers used again", Bound: "every JSON document, file of both families, metadata value (as JSON, BSON and binary), encoder and technique with 0 to 3 captures, and array constructor: the memory given to an operation is not changed by it and is overwritten afterwards, and so is the memory it returned: the recording, collection or value stays what it was, and the operation gives the same again", Body: func(c *eng.Ctx) {
		kept := func(what string, b, was []byte) {
			if !bytes.Equal(b, was) {
				c.Fail("%s changes the bytes it is given", what)
			}
		}
		// roomy is a copy with other bytes of its owner behind it
		roomy := func(b []byte) []byte {
			x := append(append([]byte{}, b...), bytes.Repeat([]byte{0x77}, 64)...)
			return x[:len(b):len(x)]
		}
		behind := func(what string, b []byte) {
			if len(bytes.Trim(b[len(b):len(b)+64], "\x77")) > 0 {
				c.Fail("%s changes the bytes behind those it is given", what)
			}
		}
		same := func(what, was, is string) {
			if was != is {
				c.Fail("%s: after the memory has been used again it is\n%s\nand was\n%s", what, clipS(is), clipS(was))
			}
		}
		clone := func(b []byte) []byte { return append([]byte{}, b...) }
		what := ""
		c.Describe(func() string { return what })
		switch c.Free(5) {
		case 0:
			var docs [][]byte
			for _, s := range good("from-json") {
				var x bytes.Buffer
				json.Indent(&x, s.data, "\r ", "\t")
				docs = append(docs, s.data, x.Bytes())
			}
			d := docs[c.Free(len(docs))]
			b := roomy(d)
			var rec format.Recording
			var err error
			c.NoPanic("import", func() { rec, err = parsing.FromJSON(b) })
			what = "importing " + string(clipB(d))
			if err != nil {
				c.Fail("%s: %v", what, err)
			}
			kept(what, b, d)
			behind(what, b)
			t := recText(rec)
			reuse(b)
			same(what, t, recText(rec))
		case 1:
			fs := AllFiles()
			f := fs[c.Free(len(fs))]
			what = "reading " + f.Name
			b := clone(f.Raw)
			rec, _, err := Read(c, bytes.NewReader(b))
			if err != nil {
				c.Fail("%s: %v", what, err)
			}
			kept(what, b, f.Raw)
			t := recText(rec)
			reuse(b)
			same(what, t, recText(rec))
		case 2:
			vals := metaVals(true, true, false)
			v := vals[c.Free(len(vals))]
			p := metadata.NewMetadataProperty(metadata.NewBlock(map[string]metadata.Property{"key": v.Real()}))
			what = fmt.Sprintf("converting {key: %v}", v)
			t := propText(p)
			j, err := p.MarshalJSON()
			if err == nil {
				was := clone(j)
				reuse(j)
				j2, _ := p.MarshalJSON()
				same(what+" to JSON", string(was), string(j2))
				q, err := metadata.UnmarshalNewMetadataProperty(j2)
				if err == nil {
					kept(what+" from JSON", j2, was)
					t := propText(q)
					reuse(j2)
					same(what+" from JSON", t, propText(q))
				}
			}
			b, err := p.MarshalBSON()
			if err == nil {
				was := bdoc((&bdec{b: clone(b)}).doc()) // the bytes have a random order
				reuse(b)
				b2, _ := p.MarshalBSON()
				same(what+" to BSON", was, bdoc((&bdec{b: b2}).doc()))
			}
			var out bytes.Buffer
			if _, err := metadata.WriteProprty(&out, p); err != nil {
				c.Fail("%s to bytes: %v", what, err)
			}
			was := clone(out.Bytes())
			q, err := metadata.ReadProperty(bytes.NewReader(out.Bytes()))
			if err != nil {
				c.Fail("%s from bytes: %v", what, err)
			}
			kept(what+" from bytes", out.Bytes(), was)
			reuse(out.Bytes())
			same(what+" from bytes", t, propText(q))
			same(what, t, propText(p))
		case 3:
			k := c.Free(5)
			t := Tech{}
			switch k {
			case 1:
				t.Pos = byte(c.Free(4))
			case 2:
				t.Euler = byte(c.Free(3))
			case 4:
				t.Float = byte(c.Free(3))
			}
			x := (&Gen{c: c, Finite: true}).Coll(Order[k], "c", c.Free(4))
			what = "encoding " + Order[k] + " " + techStr(t)
			cc := (&Rec{Colls: []Coll{x, x}}).Real().CaptureCollections()
			enc := Encs(t)[k]
			encode := func() (h []byte, bs [][]byte) {
				var err error
				c.NoPanic("Encode", func() { h, bs, err = enc.Encode(cc) })
				if err != nil || len(bs) != 2 {
					c.Fail("%s: %v", what, err)
				}
				return
			}
			h, bs := encode()
			wh, wb := clone(h), [][]byte{clone(bs[0]), clone(bs[1])}
			var times []float64
			for _, cp := range x.Caps {
				times = append(times, cp.T)
			}
			decode := func(e encoding.Encoder, h, b []byte) (got format.CaptureCollection) {
				var err error
				c.NoPanic("Decode", func() { got, err = e.Decode("c", h, b, times) })
				if err != nil {
					c.Fail("%s: Decode: %v", what, err)
				}
				return
			}
			in := roomy(bs[0])
			hin := roomy(h)
			got := decode(enc, hin, in)
			behind("decoding a body in "+what, in)
			behind("decoding a header in "+what, hin)
			kept("decoding a body in "+what, in, wb[0])
			kept("decoding a header in "+what, hin, wh)
			kept(what+" and decoding it", h, wh)
			kept(what+" and decoding it", bs[0], wb[0])
			was := collText(got)
			reuse(bs[0])
			kept(what+" (two collections)", bs[1], wb[1])
			kept(what+" (header)", h, wh)
			reuse(bs[1])
			reuse(h)
			reuse(in)
			reuse(hin)
			for i := range times {
				times[i] = -77
			}
			same(what, was, collText(got))
			h, bs = encode()
			same(what, string(wh)+"|"+string(wb[0])+"|"+string(wb[1]), string(h)+"|"+string(bs[0])+"|"+string(bs[1]))
		case 4:
			p, change := arrayProps(c.Free(numArrayProps))
			what = fmt.Sprintf("an array made from a slice: %s", p.String())
			t := propText(p)
			change()
			same(what, t, propText(p))
		}
		c.State(what)
	}}
}
