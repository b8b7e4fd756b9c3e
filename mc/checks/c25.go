package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
)

// usage is one way to run a command.
type usage struct {
	cmd     string
	in, out string // flag that names the file; "" for the streams
}

func (u usage) String() string {
	s := u.cmd
	if u.in != "" {
		s += " " + u.in
	}
	if u.out != "" {
		s += " " + u.out
	}
	return s
}

var usages = []usage{
	{"summarize", "--file", ""},
	{"to-json", "", ""}, {"to-json", "--file", ""},
	{"from-json", "", ""}, {"from-json", "--in", ""}, {"from-json", "", "--out"}, {"from-json", "--in", "--out"},
	{"upgrade", "--file", ""},
	{"from-csv", "--file", ""},
}

// aliases of the flags.
var flagAlias = map[string]string{"--file": "-f", "--in": "-i", "--out": "-o"}

func (u usage) args(in, out string, alias bool) (a []string) {
	name := func(f string) string {
		if alias {
			return flagAlias[f]
		}
		return f
	}
	if u.in != "" {
		a = append(a, name(u.in), in)
	}
	if u.out != "" {
		a = append(a, name(u.out), out)
	}
	return append([]string{u.cmd}, a...)
}

// source is something a command can be given.
type source struct {
	name string
	data []byte
	rec  *Rec // what it holds, nil when it is not understood
	// compressed: a prefix may hold everything already
	packed bool
}

var errPart = errors.New("may be either")

// held is what data mean to a command: nil when it does not understand them.
func held(cmd string, data []byte) (*Rec, error) {
	switch cmd {
	case "from-json":
		x, err := strictJSON(data)
		if err != nil {
			return nil, err
		}
		return jsonRec(x)
	case "from-csv":
		return csvMeans(string(data))
	}
	if len(data) > 0 && data[0] == 1 {
		return nil, errPart
	}
	d, err := Decode(data)
	if err != nil {
		return nil, err
	}
	return d.Rec, nil
}

// sound checks that out is the complete result of cmd for want.
func sound(c *eng.Ctx, cmd string, want *Rec, out []byte) {
	switch cmd {
	case "summarize":
		if !bytes.HasSuffix(out, []byte("\n")) || !bytes.Contains(out, []byte("Total Other Captures")) {
			c.Fail("the summary is not complete:\n%s", out)
		}
	case "to-json":
		checkExport(c, want, out)
	case "from-json":
		got, _ := MustRead(c, out)
		pg, e := plainly(got, false)
		if e != nil {
			c.Fail("the result of %s is broken: %v", cmd, e)
		}
		pw, _ := plainly(want, true)
		Same(c, "the result of "+cmd, pw, pg, Resolution(upgradeTech))
	case "upgrade":
		got, _ := MustRead(c, out)
		Same(c, "the result of "+cmd, want, got, Resolution(upgradeTech))
	case "from-csv":
		got, _ := MustRead(c, out)
		Same(c, "the result of "+cmd, tagless(want), tagless(got), nil)
	}
}

// good are inputs every command understands, by command.
var goodOnce sync.Once
var goodMap map[string][]source

func good(cmd string) []source {
	goodOnce.Do(func() {
		goodMap = map[string][]source{}
		for _, f := range AllFiles() {
			if hasFloats(f.Want) {
				continue
			}
			s := source{f.Name, f.Raw, f.Want, f.V1 || f.T.Compress}
			for _, cmd := range []string{"summarize", "to-json", "upgrade"} {
				if cmd == "to-json" {
					if must, may := inexpressible(f.Want); must || may {
						continue
					}
				}
				if cmd == "upgrade" && !chronological(f.Want) {
					continue
				}
				goodMap[cmd] = append(goodMap[cmd], s)
			}
		}
		for i, d := range append(jsonDocs(),
			`{"id":"","name":"","metadata":{},"collections":[],"recordings":[]}`,
			`{"id":"i","name":"n","metadata":{"only":[1,2,3]},"collections":[{"name":"E","type":"recolude.enum","captures":[{"time":1,"data":"A"},{"time":2,"data":"B"},{"time":3,"data":"A"}]}],"binaryReferences":[{"name":"b","uri":"u","size":12}]}`,
			`{"id":"deep","name":"n","recordings":[{"id":"a","name":"n","recordings":[{"id":"b","name":"n","recordings":[{"id":"c","name":"n","metadata":{"k":"v"}}]}]}]}`+"\n\n",
		) {
			r, err := held("from-json", []byte(d))
			if err != nil {
				panic(fmt.Sprintf("check: own document %s is wrong: %v", d, err))
			}
			goodMap["from-json"] = append(goodMap["from-json"], source{fmt.Sprint("doc ", i), []byte(d), r, false})
		}
		for i, d := range []string{
			"id,name,time,x,y,z\n",
			"id,name,time,x,y,z\na,n,1,2,3,4\n",
			"id,name,time,x,y,z\na,n,1,2,3,4\nb,m,1,2,3,4\na,n,2,3,4,5.25\n",
			"z,y,x,time,name,id\r\n4,3,2,1,\"quoted, name\",\"a\"\"b\"\r\n",
		} {
			r, err := held("from-csv", []byte(d))
			if err != nil {
				panic(fmt.Sprintf("check: own table %s is wrong: %v", d, err))
			}
			goodMap["from-csv"] = append(goodMap["from-csv"], source{fmt.Sprint("table ", i), []byte(d), r, false})
		}
	})
	return goodMap[cmd]
}

func hasFloats(r *Rec) bool {
	for _, n := range nodes(r) {
		for _, k := range n.Colls {
			if k.Kind == Float {
				return true
			}
		}
	}
	return false
}

// singleKeys tells whether no metadata of r has two keys, so that there is
// only one way to write it.
func singleKeys(r *Rec) bool {
	var val func(v Val) bool
	meta := func(m Meta) bool {
		for _, kv := range m {
			if !val(kv.V) {
				return false
			}
		}
		return len(m) < 2
	}
	val = func(v Val) bool { return len(v.M) == 0 && len(v.Arr) == 0 }
	for _, n := range nodes(r) {
		if !meta(n.Meta) {
			return false
		}
		for _, x := range n.Bins {
			if !meta(x.Meta) {
				return false
			}
		}
		for _, x := range n.Refs {
			if !meta(x.Meta) {
				return false
			}
		}
		for _, k := range n.Colls {
			for _, x := range k.Caps {
				if !meta(x.Meta) {
					return false
				}
			}
		}
	}
	return true
}

// listing is what is in a directory, by name.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		n, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[n] = "(directory)"
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[n] = "-> " + t
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			m[n] = "=" + string(b)
		}
		return nil
	})
	return m
}

// changed lists what differs between two listings.
func changed(a, b map[string]string) (d []string) {
	for n := range a {
		if x, ok := b[n]; !ok {
			d = append(d, n+" is gone")
		} else if x != a[n] {
			d = append(d, n+" changed")
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			d = append(d, n+" is new")
		}
	}
	sort.Strings(d)
	return
}

const oldFile = "what the output file held before, which is longer than most results "

// bystanders puts files next to the others that a command has no business with.
func bystanders(dir string) {
	for _, n := range []string{"other", "tmp", "out.tmp", "out.bak", "out~", ".out.tmp", "out.old", "out.new", "out.part", "out.rap", "in.tmp", "in.bak", "in~", "in.rap", "in.json", "X.tmp", "X.bak", "X~", "a.json.tmp"} {
		put(dir, n, []byte("not to be touched: "+n))
	}
}

// bench is a scratch directory with an input and an output file.
type bench struct {
	c       *eng.Ctx
	dir     string
	in, out string
	before  map[string]string
}

func newBench(c *eng.Ctx, data []byte, existing int) (*bench, func()) {
	dir, done := scratch(c)
	b := &bench{c: c, dir: dir}
	if data != nil {
		b.in = put(dir, "in", data)
	}
	b.out = filepath.Join(dir, "out")
	switch existing {
	case 1:
		put(dir, "out", []byte(strings.Repeat(oldFile, 40)))
	case 2:
		put(dir, "out", []byte("short"))
	}
	bystanders(dir)
	b.before = listing(dir)
	return b, done
}

// untouched fails when anything but ok changed.
func (b *bench) untouched(what string, ok ...string) {
	for _, d := range changed(b.before, listing(b.dir)) {
		fine := false
		for _, n := range ok {
			fine = fine || strings.HasPrefix(d, n+" ")
		}
		if !fine {
			b.c.Fail("%s: file %s", what, d)
		}
	}
}

// limited runs f while no file of this process can grow beyond n bytes.
func limited(n int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}()
	f()
}

// run runs a usage on data; the result is taken from where it belongs.
func (b *bench) run(u usage, in io.Reader, to io.Writer, alias bool) error {
	return app(b.c, in, to, u.args(b.in, b.out, alias)...)
}

func pickUsage(c *eng.Ctx) usage { return usages[c.Free(len(usages))] }

// fewer picks some of the sources (all in the thorough tier).
func fewer(c *eng.Ctx, l []source, n int) source {
	if c.Tier == "thorough" || len(l) <= n {
		return l[c.Free(len(l))]
	}
	return l[c.Free(n)*len(l)/n]
}

// failing checks a usage on something it does not understand.
func failing(c *eng.Ctx, u usage, what string, data []byte, in io.Reader, existing int) {
	b, done := newBench(c, data, existing)
	defer done()
	var to bytes.Buffer
	err := b.run(u, in, &to, false)
	if err == nil {
		c.Fail("%s reports success on %s", u, what)
	}
	b.untouched(fmt.Sprintf("%s on %s", u, what))
	if to.Len() > 0 {
		c.Fail("%s on %s writes %d bytes before it fails (%v)", u, what, to.Len(), err)
	}
	c.State(u.String(), what, err.Error())
}

func init() {
	reg(&eng.Check{
		ID: "C25", Level: "model_checking",
		Assumptions: []string{"a prefix of a compressed file that still holds the complete recording may be taken", "files named for output are replaced, not followed, when they are links"},
		Phases: []eng.Phase{
			{Name: "inputs", Bound: "every way to run every command (9) on its inputs cut at every byte, on inputs meant for other commands, on nothing, a directory and a missing file; with no, a short and a long existing output file", Body: func(c *eng.Ctx) {
				u := pickUsage(c)
				existing := 0
				if u.out != "" {
					existing = c.Free(3)
				}
				kind := c.Free(3)
				switch kind {
				case 0: // cut
					s := fewer(c, good(u.cmd), 8)
					k := c.Free(len(s.data))
					d := s.data[:k]
					c.Describe(func() string { return fmt.Sprintf("%s on %s cut to %d of %d bytes", u, s.name, k, len(s.data)) })
					rec, err := held(u.cmd, d)
					if err != nil && s.packed {
						err = errPart
					}
					if err == nil || err == errPart {
						b, done := newBench(c, d, existing)
						defer done()
						var to bytes.Buffer
						e := b.run(u, bytes.NewReader(d), &to, true)
						if e != nil && err == nil {
							c.Fail("%s fails on %s cut to %d bytes, which is complete: %v", u, s.name, k, e)
						}
						if e != nil {
							b.untouched(u.String())
							return
						}
						b.untouched(u.String(), "out")
						if rec == nil {
							rec = s.rec
						}
						res := to.Bytes()
						if u.out != "" {
							res, _ = os.ReadFile(b.out)
						}
						sound(c, u.cmd, rec, res)
						return
					}
					failing(c, u, fmt.Sprintf("%s cut to %d of %d bytes", s.name, k, len(s.data)), d, bytes.NewReader(d), existing)
				case 1: // meant for others
					others := []string{"", " ", "\x00", "{", "[]", "null x", "\xff\xfe", "id,name\n", "id,name,time,x,y,z\na,b,c,d,e,f\n", "\x02", "\x01", "\x03\x00\x00", `{"id":1}`, `{"id":"a","name":"n","collections":[{"name":"x","type":"recolude.unheard","captures":[{}]}]}`, `{"id":"a","name":"n"} trailing`, "id,name,time,x,y,z\na,b,1,2,3\n"}
					i := c.Free(len(others) + 4)
					var d []byte
					if i < len(others) {
						d = []byte(others[i])
					} else {
						l := good([]string{"to-json", "from-json", "from-csv", "upgrade"}[i-len(others)])
						d = l[len(l)/2].data
					}
					if _, err := held(u.cmd, d); err == nil || err == errPart && len(d) > 20 {
						c.Skip()
					}
					c.Describe(func() string { return fmt.Sprintf("%s on %q", u, d) })
					failing(c, u, fmt.Sprintf("%q", clipB(d)), d, bytes.NewReader(d), existing)
				case 2: // no file
					if u.in == "" {
						c.Skip()
					}
					b, done := newBench(c, nil, existing)
					defer done()
					switch c.Free(4) {
					case 0:
						b.in = filepath.Join(b.dir, "missing")
					case 1:
						b.in = filepath.Join(b.dir, "missing", "in")
					case 2:
						b.in = b.dir
					case 3:
						b.in = ""
					}
					var to bytes.Buffer
					err := b.run(u, strings.NewReader(string(good(u.cmd)[0].data)), &to, c.Free(2) == 1)
					if err == nil {
						c.Fail("%s reports success on the file %q", u, b.in)
					}
					b.untouched(u.String())
					if to.Len() > 0 {
						c.Fail("%s of a missing file writes %q", u, to.String())
					}
					c.State(u.String(), b.in == "", existing)
				}
			}},
			{Name: "failing input", Bound: "standard input that comes byte by byte and fails at every byte, in four ways, for to-json and from-json to the output stream and to a file", Body: func(c *eng.Ctx) {
				u := []usage{usages[1], usages[3], usages[5]}[c.Free(3)]
				s := fewer(c, good(u.cmd), 5)
				k := c.Free(len(s.data))
				r := &failReader{b: s.data, k: k, mode: c.Free(2), step: 1, once: c.Free(2) == 1}
				c.Describe(func() string { return fmt.Sprintf("%s of %s, input fails at byte %d (mode %d)", u, s.name, k, r.mode) })
				b, done := newBench(c, nil, 1)
				defer done()
				var to bytes.Buffer
				err := b.run(u, r, &to, false)
				if err == nil && r.failed {
					if u.cmd == "from-json" {
						c.Fail("%s reports success although reading fails", u)
					}
					sound(c, u.cmd, s.rec, to.Bytes())
				}
				if err == nil && !r.failed {
					c.Skip()
				}
				if err != nil {
					b.untouched(u.String())
				}
				c.State(u.String(), k, err)
			}},
			{Name: "failing output", Bound: "the output stream accepts every number of bytes less than the result takes, or fails at every write call in four ways, once or for good; every command", Body: func(c *eng.Ctx) {
				u := pickUsage(c)
				if u.out != "" {
					c.Skip()
				}
				s := fewer(c, good(u.cmd), 6)
				b, done := newBench(c, s.data, 0)
				defer done()
				count := &badDest{call: -1, budget: -1}
				if err := b.run(u, bytes.NewReader(s.data), count, false); err != nil {
					c.Fail("%s of %s fails: %v", u, s.name, err)
				}
				sound(c, u.cmd, s.rec, count.accepted)
				d := &badDest{call: -1, budget: -1}
				if c.Free(2) == 0 {
					d.budget = c.Free(len(count.accepted))
					d.once = c.Free(2) == 1
				} else {
					d.call = c.Free(count.calls)
					d.partial = c.Free(4)
					d.once = c.Free(2) == 1
				}
				c.Describe(func() string {
					return fmt.Sprintf("%s of %s, output fails at call %d / byte %d (partial %d, once %v)", u, s.name, d.call, d.budget, d.partial, d.once)
				})
				err := b.run(u, bytes.NewReader(s.data), d, false)
				if err == nil && d.failed {
					c.Fail("%s reports success although writing its output fails", u)
				}
				b.untouched(u.String())
				c.State(u.String(), s.name, d.call, d.budget, d.partial, d.once)
			}},
			{Name: "full disk", Bound: "the named output file cannot grow beyond every number of bytes less than the result takes (file size limit), with and without an existing file", Body: func(c *eng.Ctx) {
				u := []usage{usages[5], usages[6]}[c.Free(2)]
				s := fewer(c, good(u.cmd), 8)
				existing := c.Free(3)
				b, done := newBench(c, s.data, existing)
				defer done()
				var to bytes.Buffer
				if err := b.run(usage{u.cmd, u.in, ""}, bytes.NewReader(s.data), &to, false); err != nil {
					c.Fail("%s of %s fails: %v", u, s.name, err)
				}
				k := c.Free(to.Len())
				c.Describe(func() string { return fmt.Sprintf("%s of %s, out of space after %d bytes", u, s.name, k) })
				var err error
				var got bytes.Buffer
				limited(k, func() { err = b.run(u, bytes.NewReader(s.data), &got, false) })
				if err == nil {
					if fi, e := os.Stat(b.out); e == nil && fi.Size() > int64(k) {
						c.Skip() // the limit does not work here
					}
					c.Fail("%s reports success although its output file has no room", u)
				}
				b.untouched(u.String(), "out")
				if got.Len() > 0 {
					c.Fail("%s writes %d bytes to its output stream", u, got.Len())
				}
				c.State(u.String(), s.name, k, existing)
			}},
			{Name: "bad outputs", Bound: "output files that cannot be created: below a missing directory, below a file, a directory with contents, an empty name, a name that is too long", Body: func(c *eng.Ctx) {
				u := []usage{usages[5], usages[6]}[c.Free(2)]
				s := fewer(c, good(u.cmd), 8)
				b, done := newBench(c, s.data, 0)
				defer done()
				switch c.Free(5) {
				case 0:
					b.out = filepath.Join(b.dir, "missing", "out")
				case 1:
					b.out = filepath.Join(b.dir, "other", "out")
				case 2:
					b.out = filepath.Join(b.dir, "full")
					os.Mkdir(b.out, 0o755)
					put(b.out, "inside", []byte("x"))
					b.before = listing(b.dir)
				case 3:
					b.out = ""
				case 4:
					b.out = filepath.Join(b.dir, strings.Repeat("n", 300))
				}
				var to bytes.Buffer
				err := b.run(u, bytes.NewReader(s.data), &to, c.Free(2) == 1)
				c.Describe(func() string { return fmt.Sprintf("%s to %q", u, b.out) })
				if err == nil {
					c.Fail("%s reports success although %q cannot be written", u, b.out)
				}
				b.untouched(u.String())
				c.State(u.String(), s.name, len(b.out))
			}},
			{Name: "agreement", Bound: "every good input of every command, all ways to run it (streams or files, long or short flags), with no, a short or a long existing output file, and input and output the same file", Body: func(c *eng.Ctx) {
				u := pickUsage(c)
				l := good(u.cmd)
				s := l[c.Free(len(l))]
				existing := 0
				if u.out != "" {
					existing = c.Free(3)
				}
				alias := c.Free(2) == 1
				b, done := newBench(c, s.data, existing)
				defer done()
				same := u.in != "" && u.out != "" && existing == 0 && c.Free(2) == 1
				if same {
					b.out = b.in
				}
				c.Describe(func() string { return fmt.Sprintf("%s of %s (existing %d, in place %v)", u, s.name, existing, same) })
				var to bytes.Buffer
				given := io.Reader(bytes.NewReader(s.data))
				if u.in != "" {
					given = strings.NewReader("what standard input holds")
				}
				if err := b.run(u, given, &to, alias); err != nil {
					c.Fail("%s of %s fails: %v", u, s.name, err)
				}
				res := to.Bytes()
				if u.out != "" {
					if len(res) > 0 {
						c.Fail("%s writes to its output stream too: %q", u, res)
					}
					var err error
					if res, err = os.ReadFile(b.out); err != nil {
						c.Fail("%s reports success but there is no output: %v", u, err)
					}
				}
				if same {
					b.untouched(u.String(), "in")
				} else {
					b.untouched(u.String(), "out")
				}
				sound(c, u.cmd, s.rec, res)
				// every other way to run it gives the same
				for _, v := range usages {
					if v.cmd != u.cmd || v == u {
						continue
					}
					b, done := newBench(c, s.data, 0)
					defer done()
					var to bytes.Buffer
					if err := b.run(v, bytes.NewReader(s.data), &to, false); err != nil {
						c.Fail("%s of %s fails: %v", v, s.name, err)
					}
					o := to.Bytes()
					if v.out != "" {
						o, _ = os.ReadFile(b.out)
					}
					if singleKeys(s.rec) && !bytes.Equal(o, res) {
						c.Fail("%s and %s give different results (%d and %d bytes)", u, v, len(res), len(o))
					}
					sound(c, v.cmd, s.rec, o)
				}
				c.State(u.String(), s.name, existing, alias, same)
			}},
			namesPhase(),
			{Name: "sequences", Bound: "every sequence of 3 (thorough 4) of 10 commands over two files: imports (good, other, malformed, missing) to either file and in place, exports, upgrades, summaries; all files checked after each", Body: func(c *eng.Ctx) {
				sequences(c)
			}},
			{Name: "processes", Bound: "the built command as a process: every way to run it on 2 good and 4 bad inputs, with the output to a pipe, to a full device and to a closed pipe; exit code, output and files", Body: func(c *eng.Ctx) {
				processes(c)
			}},
		},
	})
}

func clipB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// sequences runs a history of commands against a model of the directory.
func sequences(c *eng.Ctx) {
	dir, done := scratch(c)
	defer done()
	docs := good("from-json")
	a, b2 := docs[1], docs[4]
	v1 := FamilyV1()[len(FamilyV1())-1]
	for _, f := range FamilyV1() {
		if !hasFloats(f.Want) && chronological(f.Want) {
			v1 = f
		}
	}
	put(dir, "a.json", a.data)
	put(dir, "b.json", b2.data)
	put(dir, "bad.json", a.data[:len(a.data)-3])
	put(dir, "v1.rap", v1.Raw)
	bystanders(dir)
	files := map[string]*Rec{"X": nil, "Y": nil, "a.json": a.rec}
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	raps := func(f string) bool { return files[f] != nil }
	var hist []string
	c.Describe(func() string { return strings.Join(hist, "; ") })
	p := func(f string) string { return filepath.Join(dir, f) }
	inPlace := false
	for i := 0; i < n; i++ {
		before := listing(dir)
		var args []string
		touch, ok := "", true
		var want *Rec
		cmd := ""
		switch c.Free(10) {
		case 0:
			args, touch, want = []string{"from-json", "--in", p("a.json"), "--out", p("X")}, "X", a.rec
			ok = !inPlace
		case 1:
			args, touch, want = []string{"from-json", "--in", p("b.json"), "--out", p("X")}, "X", b2.rec
		case 2:
			args, touch, want = []string{"from-json", "--in", p("b.json"), "--out", p("Y")}, "Y", b2.rec
		case 3:
			args, ok = []string{"from-json", "--in", p("bad.json"), "--out", p("X")}, false
		case 4:
			args, ok = []string{"from-json", "--in", p("X"), "--out", p("Y")}, false
		case 5:
			args, touch, want = []string{"from-json", "--in", p("a.json"), "--out", p("a.json")}, "a.json", a.rec
			ok = !inPlace
		case 6:
			args, ok, want = []string{"to-json", "--file", p("X")}, raps("X"), files["X"]
		case 7:
			args, ok, want = []string{"upgrade", "--file", p("v1.rap")}, true, v1.Want
		case 8:
			args, ok, want = []string{"upgrade", "--file", p("Y")}, raps("Y"), files["Y"]
		case 9:
			args, ok, want = []string{"summarize", "--file", p("a.json")}, inPlace, a.rec
		}
		cmd = args[0]
		hist = append(hist, strings.ReplaceAll(strings.Join(args, " "), dir+"/", ""))
		var to bytes.Buffer
		err := app(c, strings.NewReader(""), &to, args...)
		if (err == nil) != ok {
			c.Fail("step %d: success expected %v, got error %v", i+1, ok, err)
		}
		if !ok {
			touch = ""
			if to.Len() > 0 {
				c.Fail("step %d: output from a command that fails", i+1)
			}
		}
		for _, d := range changed(before, listing(dir)) {
			if touch == "" || !strings.HasPrefix(d, touch+" ") {
				c.Fail("step %d: file %s", i+1, d)
			}
		}
		res := to.Bytes()
		if touch != "" {
			if len(res) > 0 {
				c.Fail("step %d: output on the stream too", i+1)
			}
			res, _ = os.ReadFile(p(touch))
			files[touch] = want
			if touch == "a.json" {
				inPlace = true
			}
		}
		if ok {
			if cmd == "upgrade" {
				got, _ := MustRead(c, res)
				pw, pg := want, got
				if want != v1.Want {
					pg, _ = plainly(got, false)
					pw, _ = plainly(want, true)
				}
				// twice rounded when the input has been imported
				Same(c, "upgraded", pw, pg, shapeOnly())
			} else {
				sound(c, cmd, want, res)
			}
		}
		c.Step(1)
	}
	c.State(hist, files["X"] != nil, files["Y"] != nil)
}

// processes runs the built command.
func processes(c *eng.Ctx) {
	bin := os.Getenv("RAPMC_CLI")
	if bin == "" {
		c.Skip()
	}
	u := pickUsage(c)
	l := good(u.cmd)
	s := []source{l[0], l[len(l)-1]}[c.Free(2)]
	mode := c.Free(5)
	existing := 0
	if u.out != "" {
		existing = c.Free(3)
	}
	data, ok := s.data, true
	switch mode {
	case 1:
		data, ok = nil, false
	case 2:
		data, ok = []byte("\x07 nonsense"), false
	case 3:
		data = data[:len(data)/2]
		_, err := held(u.cmd, data)
		ok = err == nil
	case 4: // output that cannot be written
		if u.out != "" {
			c.Skip()
		}
		ok = false
	}
	if mode == 3 && ok {
		c.Skip()
	}
	b, done := newBench(c, data, existing)
	defer done()
	if data == nil {
		if u.in == "" {
			c.Skip()
		}
		b.in = filepath.Join(b.dir, "missing")
	}
	cmd := exec.Command(bin, u.args(b.in, b.out, false)...)
	cmd.Dir = b.dir
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if u.in == "" {
		cmd.Stdin = bytes.NewReader(data)
	}
	if mode == 4 {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			c.Skip()
		}
		defer f.Close()
		cmd.Stdout = f
	}
	c.Describe(func() string { return fmt.Sprintf("process %s on %s, mode %d", u, s.name, mode) })
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	if (err == nil) != ok {
		c.Fail("%s ends with %v (%s), success expected: %v", u, err, errOut.String(), ok)
	}
	if ee != nil && (!ee.Exited() || ee.ExitCode() == 2 && strings.Contains(errOut.String(), "goroutine")) {
		c.Fail("%s crashes: %v %s", u, err, errOut.String())
	}
	if !ok {
		if errOut.Len() == 0 {
			c.Fail("%s fails without saying why", u)
		}
		b.untouched(u.String())
		return
	}
	b.untouched(u.String(), "out")
	res := out.Bytes()
	if u.out != "" {
		res, _ = os.ReadFile(b.out)
	}
	sound(c, u.cmd, s.rec, res)
	c.State(u.String(), s.name, mode, existing)
}
