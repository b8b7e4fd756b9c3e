package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/recolude/rap/zzverif/eng"
)

// fileNames are names of files, relative to the working directory.
var fileNames = []string{
	"a", "a.json", "a.JSON", "a.rap", "A", "json", "in.csv", "a.txt", "a.gz", "a.tar.gz", ".hidden", "..b", "a.", "a..b", "...",
	" a", "a ", "a b", "\ta", "a\n", "a\nb", "-", "--", "-x", "--file", "--help", "help", "h", "+a", "@a",
	"$HOME", "${X}", "%41", "%s", "%d%n", "~", "~root", "*", "?", "[ab]", "{a,b}", "a,b", "a;b", "a|b", "a>b", "a&b", "a=b", "a:b", "C:a", "C:\\a", "a\\b", "a'b", "a\"b", "`a`", "#a", "a#b", "!a", "^a",
	"http:a", "file:a", "stdin", "stdout", "con", "nul", "\u00fc", "u\u0308", "\u65e5\u672c", "\U0001f600", "\xff\xfe", "a\x01b", "a\x7f", "\u00a0", "\u200b", "\ufeffa", "0", "1e3", "true", "null",
	"./a", "./-", "sub/a", "sub/../a", "sub//a", "./sub/./a", "link/a", "sub/-", "sub/a b", "sub/.a",
	strings.Repeat("n", 100), strings.Repeat("n", 255), strings.Repeat("\u65e5", 85), strings.Repeat("sub/../", 100) + "a",
}

// nameNeighbours are names that a missing file must not be mistaken for.
func nameNeighbours(n string) []string {
	base := n
	if i := strings.LastIndexByte(n, '.'); i > 0 && !strings.Contains(n[i:], "/") {
		base = n[:i]
	}
	return []string{n + ".rap", n + ".json", n + ".csv", n + ".txt", n + ".gz", n + ".tmp", n + "~", n + ".bak", strings.ToLower(n), strings.ToUpper(n), strings.TrimSpace(n), strings.Trim(n, ".-~$ "), base, filepath.Base(n), "sub/" + filepath.Base(n)}
}

// inDir runs f with dir as the working directory.
func inDir(dir string, f func()) {
	was, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(was)
	f()
}

func namesPhase() eng.Phase {
	return eng.Phase{Name: "names", Bound: fmt.Sprintf("every command that names a file, with each of %d file names (option-like, with blanks, wildcards, variables, other encodings, relative, linked, long), as input or as output file, relative or absolute; and the file missing while others with similar names are there", len(fileNames)), Body: func(c *eng.Ctx) {
		u := pickUsage(c)
		if u.in == "" && u.out == "" {
			c.Skip()
		}
		name := fileNames[c.Free(len(fileNames))]
		side := c.Free(3) // name of: 0 the input, 1 the output, 2 a missing input
		if side == 1 && u.out == "" || side != 1 && u.in == "" {
			c.Skip()
		}
		if side == 1 && len(name) == 255 {
			c.Skip() // a name as long as can be leaves no room for another one next to it
		}
		abs := c.Free(2) == 1
		existing := side == 1 && c.Free(2) == 1
		s := good(u.cmd)[c.Free(2)*(len(good(u.cmd))-1)]
		what := fmt.Sprintf("%s of %s, %s is named %q (absolute %v)", u, s.name, []string{"its input", "its output", "its input, which is missing,"}[side], name, abs)
		c.Describe(func() string { return what })
		dir, done := scratch(c)
		defer done()
		if err := os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0o755); err != nil {
			panic(err)
		}
		if err := os.Symlink("sub/deep", filepath.Join(dir, "link")); err != nil {
			panic(err)
		}
		path := func(n string) string { return dir + "/" + n }
		write := func(n string, b []byte) bool { return os.WriteFile(path(n), b, 0o644) == nil }
		in, out := "the input", "the output"
		switch side {
		case 0:
			in = name
		case 1:
			out = name
			if existing && !write(out, []byte(strings.Repeat(oldFile, 40))) {
				panic("no file " + out)
			}
		case 2:
			in = name
			for _, n := range nameNeighbours(name) {
				if filepath.Clean(path(n)) != filepath.Clean(path(name)) {
					write(n, s.data)
				}
			}
			// the other spelling may be the same file
			os.Remove(path(name))
			if _, err := os.Stat(path(name)); err == nil {
				c.Skip()
			}
		}
		if side != 2 && !write(in, s.data) {
			panic("no file " + in)
		}
		was := listing(dir)
		i, o := in, out
		if abs {
			i, o = path(in), path(out)
		}
		var to bytes.Buffer
		var err error
		given := io.Reader(strings.NewReader("what standard input holds"))
		if u.in == "" {
			given = bytes.NewReader(s.data)
		}
		inDir(dir, func() { err = app(c, given, &to, u.args(i, o, false)...) })
		now := listing(dir)
		d := changed(was, now)
		if side == 2 {
			if err == nil {
				c.Fail("%s: reports success", what)
			}
			if len(d) > 0 || to.Len() > 0 {
				c.Fail("%s: files changed: %q; %d bytes written", what, d, to.Len())
			}
			c.State(u.String(), name, side, abs)
			return
		}
		if err != nil {
			c.Fail("%s: fails: %v", what, err)
		}
		res := to.Bytes()
		if u.out != "" {
			b, err := os.ReadFile(path(out))
			if err != nil {
				c.Fail("%s: reports success but there is no output: %v", what, err)
			}
			if len(res) > 0 {
				c.Fail("%s: writes to its output stream too: %q", what, clipB(res))
			}
			res = b
			os.Remove(path(out))
			o := map[string]string{}
			for n, v := range was {
				o[n] = v
			}
			rel := out
			if l, err := filepath.EvalSymlinks(path(out)[:strings.LastIndexByte(path(out), '/')]); err == nil {
				root, _ := filepath.EvalSymlinks(dir)
				rel, _ = filepath.Rel(root, filepath.Join(l, filepath.Base(out)))
			}
			delete(o, rel)
			d = changed(o, listing(dir))
		}
		if len(d) > 0 {
			c.Fail("%s: other files changed: %q", what, d)
		}
		sound(c, u.cmd, s.rec, res)
		c.State(u.String(), name, side, abs, existing, s.name)
	}}
}
