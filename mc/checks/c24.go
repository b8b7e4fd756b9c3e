package checks

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/zzverif/cli"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// csvRow is one row of a table.
type csvRow struct {
	id, name string
	n        [4]string // time, x, y, z as spelled
}

var csvCols = []string{"id", "name", "time", "x", "y", "z"}

func (r csvRow) cell(k int) string {
	switch k {
	case 0:
		return r.id
	case 1:
		return r.name
	}
	return r.n[k-2]
}

// csvStyle is how a table is spelled.
type csvStyle struct {
	order []int // columns by place; -1 is an extra column
	quote int   // 0 where needed, 1 always
	space int   // 0 none, 1 around column names, 2 around numbers, 3 both
	eol   string
	last  bool // the last row ends with eol
}

func plainCSV() csvStyle { return csvStyle{order: []int{0, 1, 2, 3, 4, 5}, eol: "\n", last: true} }

func (s csvStyle) field(t string, first bool) string {
	if s.quote == 1 || strings.ContainsAny(t, "\",\n\r") || t != "" && (t[0] == ' ' || t[0] == '\t') && s.quote == 2 {
		return `"` + strings.ReplaceAll(t, `"`, `""`) + `"`
	}
	return t
}

func (s csvStyle) table(rows []csvRow) string {
	var lines []string
	line := func(cell func(k int) string, space bool, nums bool) {
		var o []string
		for i, k := range s.order {
			t := ""
			if k < 0 {
				t = fmt.Sprintf("extra %d, \"q\"", i)
			} else {
				t = cell(k)
				if space && (!nums || k >= 2) {
					t = [...]string{" " + t, t + " ", "\t" + t + "  ", "  " + t}[(i+k)%4]
				}
			}
			o = append(o, s.field(t, i == 0))
		}
		lines = append(lines, strings.Join(o, ","))
	}
	line(func(k int) string { return csvCols[k] }, s.space&1 != 0, false)
	for _, r := range rows {
		line(r.cell, s.space&2 != 0, true)
	}
	t := strings.Join(lines, s.eol)
	if s.last {
		t += s.eol
	}
	return t
}

var errVague = errors.New("the table is ambiguous")

// csvMeans is the recording a table stands for.
func csvMeans(doc string) (*Rec, error) {
	rows, err := csv.NewReader(strings.NewReader(doc)).ReadAll()
	if err != nil {
		return nil, err
	}
	if len(rows) == 0 {
		return nil, fmt.Errorf("no header")
	}
	at := map[string]int{}
	for i, h := range rows[0] {
		h = strings.TrimSpace(h)
		if _, dup := at[h]; dup {
			for _, k := range csvCols {
				if k == h {
					return nil, errVague
				}
			}
		}
		at[h] = i
	}
	for _, k := range csvCols {
		if _, ok := at[k]; !ok {
			return nil, fmt.Errorf("no column %s", k)
		}
	}
	root := &Rec{}
	where := map[[2]string]int{}
	for _, r := range rows[1:] {
		var n [4]float64
		for j, k := range csvCols[2:] {
			n[j], err = strconv.ParseFloat(strings.TrimSpace(r[at[k]]), 64)
			if err != nil {
				return nil, err
			}
		}
		s := [2]string{r[at["id"]], r[at["name"]]}
		i, ok := where[s]
		if !ok {
			i = len(root.Recs)
			where[s] = i
			root.Recs = append(root.Recs, &Rec{ID: s[0], Name: s[1], Colls: []Coll{{Kind: Pos, Name: "Position"}}})
		}
		k := &root.Recs[i].Colls[0]
		k.Caps = append(k.Caps, Cap{T: n[0], V: [3]float64{n[1], n[2], n[3]}})
	}
	return root, nil
}

// tagless drops what the table does not decide.
func tagless(r *Rec) *Rec {
	n := r.Clone()
	n.ID, n.Name = "", ""
	for _, s := range n.Recs {
		for i := range s.Colls {
			s.Colls[i].Name = ""
		}
	}
	return n
}

func importCSV(c *eng.Ctx, doc string, command bool) {
	want, werr := csvMeans(doc)
	check := func(what string, got *Rec, err error) {
		if err != nil && werr == nil {
			c.Fail("%s fails: %v", what, err)
		}
		if err == nil && werr != nil && werr != errVague {
			c.Fail("%s takes a table that is malformed: %v", what, werr)
		}
		if err == nil && werr == nil {
			Same(c, what, tagless(want), tagless(got), nil)
		}
	}
	var rec format.Recording
	var err error
	c.NoPanic("importing CSV", func() { rec, err = cli.ZZRecordingFromCSV(strings.NewReader(doc)) })
	var got *Rec
	if err == nil {
		got = Complete(c, rec)
	} else if rec != nil {
		c.Fail("importing CSV gives a recording and the error %v", err)
	}
	check("importing CSV", got, err)
	c.State(doc, err == nil)
	if !command {
		return
	}
	dir, done := scratch(c)
	defer done()
	var out bytes.Buffer
	err = app(c, strings.NewReader(""), &out, "from-csv", "--file", put(dir, "t.csv", []byte(doc)))
	got = nil
	if err == nil {
		got, _ = MustRead(c, out.Bytes())
	} else if out.Len() > 0 {
		c.Fail("from-csv gives %d bytes and the error %v", out.Len(), err)
	}
	check("from-csv", got, err)
	// the library writes the imported recording and reads it back
	if rec != nil && err == nil {
		file, _ := MustWrite(c, rec, Tech{})
		back, _ := MustRead(c, file)
		check("importing, writing and reading", back, nil)
	}
}

func csvNum(i, j int) string {
	return strconv.FormatFloat(float64(i)*2.25-float64(j)*7.125, 'g', -1, 64)
}

func csvRows(n int, subject func(i int) (string, string)) (rows []csvRow) {
	for i := 0; i < n; i++ {
		r := csvRow{n: [4]string{csvNum(i, 0), csvNum(i, 1), csvNum(i, 2), csvNum(i, 3)}}
		r.id, r.name = subject(i)
		rows = append(rows, r)
	}
	return
}

func init() {
	two := func(i int) (string, string) { return []string{"a", "b"}[i%2], "n" }
	reg(&eng.Check{
		ID: "C24", Level: "model_checking",
		Assumptions: []string{"encoding/csv and strconv.ParseFloat of the Go library define what a well-formed table and a number are"},
		Phases: []eng.Phase{
			{Name: "grouping", Bound: "all sequences of at most 5 (thorough 6) rows over 10 pairs of id and name that share ids, names and concatenations", Body: func(c *eng.Ctx) {
				subj := [][2]string{{"a", "p"}, {"a", "q"}, {"b", "p"}, {"", "ap"}, {"ap", ""}, {"a", " p"}, {"", ""}, {"", "p"}, {"p", "a"}, {" a", "p"}}
				n := 5
				if c.Tier == "thorough" {
					n = 6
				}
				n = c.Free(n + 1)
				rows := csvRows(n, func(i int) (string, string) { s := subj[c.Free(len(subj))]; return s[0], s[1] })
				doc := plainCSV().table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, n <= 3)
			}},
			{Name: "rows", Bound: "all sequences of 1 to 4 rows over 2 subjects, 3 times and 3 coordinates that repeat and run backwards", Body: func(c *eng.Ctx) {
				n := 1 + c.Free(4)
				rows := csvRows(n, func(i int) (string, string) { return []string{"a", "b"}[c.Free(2)], "n" })
				for i := range rows {
					rows[i].n[0] = []string{"0", "1.5", "-1.5"}[c.Free(3)]
					rows[i].n[1+i%3] = []string{"0", "-0", "2"}[c.Free(3)]
				}
				doc := plainCSV().table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, n < 3)
			}},
			{Name: "columns", Bound: "all orders of the 6 columns, with no extra column or one at any place, quoted or not, in 4 spacings, 2 line ends, with and without a last line end", Body: func(c *eng.Ctx) {
				ps := perms(6)
				s := csvStyle{order: append([]int{}, ps[c.Free(len(ps))]...), quote: c.Free(2), space: c.Free(4), eol: "\n"}
				if x := c.Free(8); x > 0 {
					s.order = append(s.order[:x-1], append([]int{-1}, s.order[x-1:]...)...)
				}
				if c.Free(2) == 1 {
					s.eol, s.last = "\r\n", true
				}
				doc := s.table(csvRows(3, two))
				c.Describe(func() string { return doc })
				importCSV(c, doc, false)
			}},
			{Name: "styles", Bound: "all styles of 4 column orders, through the command", Body: func(c *eng.Ctx) {
				s := csvStyle{order: [][]int{{0, 1, 2, 3, 4, 5}, {5, -1, 4, 3, 2, 1, 0}, {-1, 2, 0, 3, 1, 4, 5, -1, -1}, {3, 4, 5, 2, 1, 0, -1}}[c.Free(4)], quote: c.Free(2), space: c.Free(4), eol: []string{"\n", "\r\n"}[c.Free(2)], last: c.Free(2) == 1}
				doc := s.table(csvRows(c.Free(5), two))
				c.Describe(func() string { return doc })
				importCSV(c, doc, true)
			}},
			{Name: "missing columns", Bound: "all subsets of the columns, with each missing one dropped or renamed in 5 ways, with 0 to 2 rows", Body: func(c *eng.Ctx) {
				mask := c.Free(64)
				way := c.Free(6)
				n := c.Free(3)
				rows := csvRows(n, two)
				s := plainCSV()
				s.order = nil
				for k := 0; k < 6; k++ {
					if mask>>uint(k)&1 == 1 || way > 0 {
						s.order = append(s.order, k)
					}
				}
				doc := s.table(rows)
				if way > 0 {
					head := append([]string{}, csvCols...)
					for k := range head {
						if mask>>uint(k)&1 == 0 {
							head[k] = []string{"", strings.ToUpper(head[k]), head[k] + "2", `"` + head[k] + `,"`, "\ufeff" + head[k]}[way-1]
						}
					}
					doc = strings.Join(head, ",") + doc[strings.Index(doc, "\n"):]
				}
				c.Describe(func() string { return doc })
				importCSV(c, doc, n < 2)
			}},
			{Name: "row widths", Bound: "tables of 1 to 3 rows, any one row 1 to 6 cells shorter or 1 to 3 longer", Body: func(c *eng.Ctx) {
				n := 1 + c.Free(3)
				i := 1 + c.Free(n)
				d := c.Free(9)
				lines := strings.Split(plainCSV().table(csvRows(n, two)), "\n")
				cells := strings.Split(lines[i], ",")
				if d < 6 {
					cells = cells[:5-d]
				} else {
					cells = append(cells, []string{"1", "2", ""}[:d-5]...)
				}
				lines[i] = strings.Join(cells, ",")
				doc := strings.Join(lines, "\n")
				c.Describe(func() string { return doc })
				importCSV(c, doc, true)
			}},
			{Name: "numbers", Bound: "each of 4 number cells of any of 3 rows in each of 40 spellings", Body: func(c *eng.Ctx) {
				l := []string{"", " ", "0", "-0", "+1", "1.", ".5", "1e3", "1E-3", "1e400", "-1e400", "1e-400", "5e-324", "NaN", "inf", "-Inf", "infinity", "0x10", "0x1p-2", "1_000", "1,5", "1 2", "--1", "1-", "one", "1f", "½", "\u00a01", "1\u2003", "1\t", "9007199254740993", "0.1", "123456789.123456789", "1.7976931348623157e308", "1e+", "e1", ".", "+", "1\n", "\x00"}
				rows := csvRows(3, two)
				rows[c.Free(3)].n[c.Free(4)] = l[c.Free(len(l))]
				doc := plainCSV().table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, true)
			}},
			{Name: "blanks", Bound: "tables of 1 to 3 rows in which any one row, or all, have any subset of their six cells empty or blank (3 ways), quoted or not, with one extra column or none", Body: func(c *eng.Ctx) {
				n := 1 + c.Free(3)
				at := c.Free(n + 1)
				mask := c.Free(64)
				blank := []string{"", " ", "\t"}[c.Free(3)]
				rows := csvRows(n, two)
				for i := range rows {
					if at < n && i != at {
						continue
					}
					for k := 0; k < 4; k++ {
						if mask>>uint(k)&1 == 1 {
							rows[i].n[k] = blank
						}
					}
					if mask>>4&1 == 1 {
						rows[i].id = blank
					}
					if mask>>5&1 == 1 {
						rows[i].name = blank
					}
				}
				s := plainCSV()
				s.quote = c.Free(2)
				if c.Free(2) == 1 {
					s.order = append([]int{}, s.order...)
					s.order = append(s.order, -1)
				}
				doc := s.table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, n < 2)
			}},
			{Name: "spelled", Bound: fmt.Sprintf("%d texts that mean something elsewhere (escapes, verbs, separators, literals, field names) as id, name or both", len(spelled)), Body: func(c *eng.Ctx) {
				t := spelled[c.Free(len(spelled))]
				way := c.Free(3)
				rows := csvRows(3, func(i int) (string, string) {
					if i == 1 {
						return [][2]string{{t, "n"}, {"a", t}, {t, t}}[way][0], [][2]string{{t, "n"}, {"a", t}, {t, t}}[way][1]
					}
					return "a", "n"
				})
				s := plainCSV()
				s.quote = c.Free(2)
				doc := s.table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, true)
			}},
			{Name: "texts", Bound: "all strings of at most 3 (thorough 4) characters over 11 as id and as name of the second of 3 rows, quoted where needed or always", Body: func(c *eng.Ctx) {
				al := []string{"a", " ", ",", "\"", "\n", "é", "\xff", "\x00", "#", "\t", "1"}
				n := 3
				if c.Tier == "thorough" {
					n = 4
				}
				s := ""
				for n = c.Free(n + 1); n > 0; n-- {
					s += al[c.Free(len(al))]
				}
				rows := csvRows(3, func(i int) (string, string) { return "i", "a" })
				if c.Free(2) == 1 {
					rows[1].id = s
				} else {
					rows[1].name = s
				}
				st := plainCSV()
				st.quote = c.Free(2)
				if c.Free(2) == 1 {
					st.order = []int{1, 2, 3, 4, 5, 0}
				}
				doc := st.table(rows)
				c.Describe(func() string { return doc })
				if strings.Contains(s, "\"") || len(s) < 2 {
					importCSV(c, doc, true)
				} else {
					importCSV(c, doc, false)
				}
			}},
			{Name: "lookalikes", Bound: fmt.Sprintf("subjects with two ids and names of %d lengths up to 513 that differ in their first, middle or last byte, in case, by a prefix, a trailing NUL or blank, as ids, names, or both", len(lookLens)), Body: func(c *eng.Ctx) {
				a, b := lookalikes(c)
				s := [][][2]string{{{a, "n"}, {b, "n"}, {a, "n"}}, {{"i", a}, {"i", b}, {"i", a}}, {{a, b}, {b, a}, {a, b}, {a, a}, {b, b}}, {{a, ""}, {"", a}, {b, ""}, {"", b}, {a + b, ""}, {a, b}}}[c.Free(4)]
				rows := csvRows(len(s), func(i int) (string, string) { return s[i][0], s[i][1] })
				st := plainCSV()
				st.quote = c.Free(2)
				doc := st.table(rows)
				c.Describe(func() string { return doc })
				importCSV(c, doc, c.Free(2) == 1)
			}},
			{Name: "many", Bound: "1 to 300 subjects, 1 to 3 rows each, grouped, interleaved and in reverse", Body: func(c *eng.Ctx) {
				ns := []int{1, 2, 3, 7, 8, 9, 10, 17, 64, 127, 128, 129, 300}
				n := ns[c.Free(len(ns))]
				per := 1 + c.Free(3)
				way := c.Free(3)
				rows := csvRows(n*per, func(i int) (string, string) {
					k := i / per
					if way == 1 {
						k = i % n
					}
					if way == 2 {
						k = n - 1 - i%n
					}
					return fmt.Sprint(k % 7), fmt.Sprint("s", k)
				})
				doc := plainCSV().table(rows)
				c.Describe(func() string { return fmt.Sprintf("%d subjects, %d rows each, way %d", n, per, way) })
				importCSV(c, doc, true)
			}},
			{Name: "bytes", Bound: "every prefix, every deletion of one byte, and every replacement by or insertion of one of 14 bytes in 2 tables (thorough: also every two replacements of 5 bytes)", Body: func(c *eng.Ctx) {
				docs := []string{"id,name,time,x,y,z\n1,a,1,2,3,4\n2,b,5,6,7,8\n", "\"x\",y, z ,time,extra,id,name\r\n1,2,3,4,\"e,\",7,\"n\"\"m\"\r\n1,2,3,4.5,,7,o"}
				doc := docs[c.Free(2)]
				bs := ",\"\n\r 0x#-.\x00aé\t"
				i := c.Free(len(doc) + 1)
				switch k := c.Free(2 + 2*len(bs)); {
				case k == 0 || i == len(doc) && k < 2+len(bs):
					doc = doc[:i]
				case k == 1:
					doc = doc[:i] + doc[i+1:]
				case k < 2+len(bs):
					doc = doc[:i] + bs[k-2:k-1] + doc[i+1:]
				default:
					k -= 2 + len(bs)
					doc = doc[:i] + bs[k:k+1] + doc[i:]
				}
				if c.Tier == "thorough" && c.Free(2) == 1 {
					j := c.Free(len(doc) + 1)
					k := c.Free(5)
					doc = doc[:j] + bs[k:k+1] + doc[j:]
				}
				c.Describe(func() string { return doc })
				importCSV(c, doc, false)
			}},
			{Name: "duplicates", Bound: "tables with a column repeated at any place do not crash", Body: func(c *eng.Ctx) {
				s := plainCSV()
				k, at := c.Free(6), c.Free(7)
				s.order = append(s.order[:at:at], append([]int{k}, s.order[at:]...)...)
				doc := s.table(csvRows(2, two))
				c.Describe(func() string { return doc })
				importCSV(c, doc, true)
			}},
		},
	})
}
