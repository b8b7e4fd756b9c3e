package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	rapio "github.com/recolude/rap/format/io"
)

// MakeGolden writes golden.go with the library it is built with.
func MakeGolden() string {
	var s strings.Builder
	s.WriteString("package checks\n\n// Golden holds files written by the original build.\nvar Golden = map[string]string{\n")
	ids, recs, ts := GoldenCases()
	for i := range ids {
		var b bytes.Buffer
		if _, err := rapio.NewWriter(Encs(ts[i]), ts[i].Compress, &b, rapio.TimeStorageTechnique(ts[i].Time)).Write(recs[i].Real()); err != nil {
			panic(err)
		}
		fmt.Fprintf(&s, "\t%q: %q,\n", ids[i], base64.StdEncoding.EncodeToString(b.Bytes()))
	}
	s.WriteString("}\n")
	return s.String()
}
