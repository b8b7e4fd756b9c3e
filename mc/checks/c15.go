package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/zzverif/cli"
	"github.com/recolude/rap/zzverif/eng"
	. "github.com/recolude/rap/zzverif/model"
	"github.com/recolude/rap/zzverif/vsched"
)

// conc are the operations that run at the same time. They share encoders,
// recordings, collections and values, and nothing of the harness.
func conc() *family {
	f := &family{name: "concurrent"}
	small := func(id string) *Rec {
		return &Rec{ID: id, Name: "small " + id, Meta: Meta{{"k" + id, Val{Kind: VStr, S: "v" + id}}, {"b", Val{Kind: VBlock, M: Meta{{"in" + id, Val{Kind: VVec2, V: [3]float64{1, 2}}}}}}},
			Colls: []Coll{posColl(2), {Kind: Event, Name: "e" + id, Caps: []Cap{{T: 1, Name: "go" + id, Meta: Meta{{"k" + id, Val{Kind: VInt, I: 5}}}}}}, {Kind: Enum, Name: "n", Members: []string{"On", "Off" + id}, Caps: []Cap{{T: 1, I: 1}, {T: 2, I: 0}}}},
			Bins:  []Bin{{Name: "bin", Data: []byte("data of " + id)}},
			Refs:  []Ref{{Name: "r", URI: "u" + id, Size: 3}},
			Recs:  []*Rec{{ID: "kid", Colls: []Coll{{Kind: Euler, Name: "rot", Caps: []Cap{{T: 1, V: [3]float64{1, 2, 3}}}}}}},
		}
	}
	ra, rb := small("A"), small("BB")
	rb.Colls = append(rb.Colls, Coll{Kind: Float, Name: "f", Caps: []Cap{{T: 1, V: [3]float64{7}}, {T: 2, V: [3]float64{-7.5}}}})
	fa := Encode(ra, Tech{}, Order).Bytes()
	im := Encode(rb, Tech{Pos: 1, Euler: 2, Float: 1, Time: 1}, Order)
	im.Compress = true
	fb := im.Bytes()
	v := &V1Rec{Name: "v1", Meta: [][2]string{{"m", "1"}}, Events: []V1Event{{T: 1, Name: "e", Contents: "c", Data: [][2]string{{"d", "2"}}}},
		Subjects: []V1Subject{{ID: 3, Name: "s", Pos: []V1Vec{{1, 2, 3, 4}, {2, 3, 4, 5}}, Life: []V1Life{{1, 1}}}}}
	f1 := V1File(v.Proto(), 1, 9)
	docs := []string{
		`{"id":"j","name":"json","metadata":{"k1":"x","n":[1,2]},"collections":[{"name":"p","type":"recolude.position","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}}]},{"name":"n","type":"recolude.enum","captures":[{"time":1,"data":"B"},{"time":2,"data":"A"}]}]}`,
		`{"id":"j2","name":"other","collections":[{"name":"e","type":"recolude.event","captures":[{"time":1,"data":{"name":"go","metadata":{"a":{"b":1}}}}]},{"name":"n","type":"recolude.enum","captures":[{"time":1,"data":"C"}]}]}`,
	}
	f.world = func(c *eng.Ctx) *world {
		w := &world{c: c}
		w.rec(ra)
		w.rec(rb)
		w.encs = append(Encs(histTech), Encs(Tech{Pos: 2, Euler: 1, Float: 0})...)
		w.prop(Val{Kind: VBlock, M: ra.Meta})
		return w
	}
	add := func(name string, run func(w *world) string) { f.ops = append(f.ops, op{name, run}) }
	wr := func(i int, comp bool, encs func(w *world) []encoding.Encoder, tt rapio.TimeStorageTechnique) func(w *world) string {
		return func(w *world) string {
			var b bytes.Buffer
			n, err := rapio.NewWriter(encs(w), comp, w.dst(&b), tt).Write(w.recs[i])
			return fmt.Sprintf("%d %s %x", n, errText(err), b.Bytes())
		}
	}
	first := func(w *world) []encoding.Encoder { return w.encs[:5] }
	second := func(w *world) []encoding.Encoder { return w.encs[5:] }
	rd := func(b []byte) func(w *world) string {
		return func(w *world) string {
			r, n, err := rapio.NewReader(w.encs[:5], w.src(bytes.NewReader(b))).Read()
			s := fmt.Sprintf("%d %s ", n, errText(err))
			if err == nil {
				s += recText(r)
			}
			return s
		}
	}
	tool := func(in string, args ...string) func(w *world) string {
		return func(w *world) string {
			var out bytes.Buffer
			err := cli.ZZBuildApp(w.src(strings.NewReader(in)), w.dst(&out), io.Discard).Run(append([]string{"rap"}, args...))
			return errText(err) + " " + out.String()
		}
	}
	imp := func(d string) func(w *world) string {
		return func(w *world) string {
			r, err := parsing.FromJSON([]byte(d))
			if err != nil {
				return errText(err)
			}
			return recText(r)
		}
	}
	add("write A", wr(0, false, first, rapio.BST16))
	add("write B", wr(1, false, first, rapio.BST16))
	add("write B, other encoders", wr(1, true, second, rapio.Raw32))
	add("read A", rd(fa))
	add("read B", rd(fb))
	add("read half of A", rd(fa[:len(fa)*3/5]))
	add("default write A", func(w *world) string {
		var b bytes.Buffer
		n, err := rapio.NewRecoludeWriter(w.dst(&b)).Write(w.recs[0])
		return fmt.Sprintf("%d %s %x", n, errText(err), b.Bytes())
	})
	add("refused write", func(w *world) string {
		var b bytes.Buffer
		n, err := rapio.NewWriter(w.encs[:4], true, w.dst(&b), rapio.Raw64).Write(w.recs[1])
		return fmt.Sprintf("%d %s %x", n, errText(err), b.Bytes())
	})
	add("load version 1", func(w *world) string {
		r, n, err := rapio.Load(w.src(bytes.NewReader(f1)))
		if err != nil {
			return errText(err)
		}
		return fmt.Sprint(n, recText(r))
	})
	add("import", imp(docs[0]))
	add("import another", imp(docs[1]))
	add("import a table", func(w *world) string {
		r, err := cli.ZZRecordingFromCSV(w.src(strings.NewReader("id,name,time,x,y,z\n1,n,1,2,3,4\n2,m,1,2,3,4\n1,n,2,2,3,4\n")))
		if err != nil {
			return errText(err)
		}
		return recText(r)
	})
	add("slice, validate and measure A", func(w *world) string {
		return recText(format.Slice(w.recs[0], format.BeginningOfSlice(1), format.EndOfSlice(2))) + errText(format.Validate(w.recs[0])) + fmt.Sprint(format.RecordingStart(w.recs[0]), format.RecordingEnd(w.recs[0]))
	})
	add("convert values", func(w *world) string {
		mp := w.props[0].(metadata.MetadataProperty)
		j, err := mp.MarshalJSON()
		b, err2 := mp.MarshalBSON()
		d := &bdec{b: b}
		return fmt.Sprintf("%s %v %s %v %s", j, err, bdoc(d.doc()), err2, propText(mp))
	})
	add("look at A", func(w *world) string {
		s := ""
		for _, c := range w.recs[0].CaptureCollections() {
			s += collText(c) + collText(c.Slice(1, 2)) + fmt.Sprint(c.Start(), c.End(), c.CaptureAt(0))
		}
		for _, b := range w.recs[0].Binaries() {
			p, err := io.ReadAll(b.Data())
			s += fmt.Sprintf("%s %v", p, err)
		}
		return s
	})
	add("command to-json", tool(string(fa), "to-json"))
	add("command from-json", tool(docs[0], "from-json"))
	return f
}

// together runs the operations at the same time and compares their results.
func (f *family) together(c *eng.Ctx, ops []int, hotOnly bool, after bool) {
	if vsched.Broken.Load() {
		c.Skip()
	}
	var names []string
	var wants []string
	for _, i := range ops {
		names = append(names, f.ops[i].name)
		wants = append(wants, f.want(f.ops[i]))
	}
	w := f.world(c)
	got := make([]string, len(ops))
	var bodies []func()
	for k, i := range ops {
		k, o := k, f.ops[i]
		bodies = append(bodies, func() { got[k] = o.run(w) })
	}
	var trace []string
	c.Describe(func() string { return strings.Join(names, " | ") + ": " + strings.Join(trace, ", ") })
	c.Step(len(ops))
	var crash []*vsched.Crash
	if vsched.Foreign > 0 {
		crash = vsched.Free(bodies)
	} else {
		points := 0
		s := vsched.Run(bodies, func(cur int, en []int, hot bool) int {
			if len(en) == 1 {
				return en[0]
			}
			n := en[0]
			if cur >= 0 {
				points++
				if hotOnly && !hot {
					return cur
				}
				n = en[c.Dev(len(en))]
			} else {
				n = en[c.Free(len(en))]
			}
			if n != cur {
				trace = append(trace, fmt.Sprintf("%d at %d", n, points))
			}
			return n
		})
		if s.Stalled {
			c.Note("stalled")
			c.Skip()
		}
		if s.Dead != "" {
			c.Fail("%s never end: %s", strings.Join(names, " | "), s.Dead)
		}
		crash = s.Panics
	}
	for k, p := range crash {
		if p == nil {
			continue
		}
		if eng.Control(p.Val) {
			panic(p.Val)
		}
		n := "a goroutine of the library"
		if k < len(names) {
			n = names[k]
		}
		c.Fail("%s: %s crashed: %v [%s]", strings.Join(names, " | "), n, p.Val, eng.TrimStack(p.Stack))
	}
	for k := range ops {
		if got[k] != wants[k] {
			c.Fail("%s: %s gives\n%s\nand alone\n%s", strings.Join(names, " | "), names[k], clipS(got[k]), clipS(wants[k]))
		}
	}
	w.check(strings.Join(names, " | "))
	if after {
		for k, i := range ops {
			if s := result(c, w, f.ops[i]); s != wants[k] {
				c.Fail("%s after %s at the same time gives\n%s\nand on fresh objects\n%s", names[k], strings.Join(names, " | "), clipS(s), clipS(wants[k]))
			}
		}
	}
	c.State(append([]string{fmt.Sprint(ops)}, trace...))
}

// streamUses counts how often an operation uses its streams.
func (f *family) streamUses(c *eng.Ctx, o op) int {
	if f.uses == nil {
		f.uses = map[string]int{}
	}
	if n, ok := f.uses[o.name]; ok {
		return n
	}
	w := f.world(c)
	n := 0
	w.hook = func() { n++ }
	result(c, w, o)
	f.uses[o.name] = n
	return n
}

// nested runs ops[0] and, in the middle of the use number at(op) of its
// streams, ops[1] the same way, and so on: len(ops) operations are under way
// at once, as when every one of them waits for its stream.
func (f *family) nested(c *eng.Ctx, ops []int, at func(o op) int) {
	if vsched.Broken.Load() {
		c.Skip()
	}
	name := f.ops[ops[0]].name
	for _, i := range ops[1:] {
		if len(name) < 100 {
			name += ", in it " + f.ops[i].name
		}
	}
	if len(ops) > 2 {
		name += fmt.Sprintf(" ... (%d in all)", len(ops))
	}
	for _, i := range ops {
		f.want(f.ops[i])
	}
	w := f.world(c)
	got := make([]string, len(ops))
	done := make([]bool, len(ops))
	var run func(level int)
	run = func(level int) {
		o := f.ops[ops[level]]
		prev, n := w.hook, 0
		w.hook = func() {
			if n++; n == at(o)+1 && level+1 < len(ops) {
				run(level + 1)
			}
		}
		got[level] = o.run(w)
		done[level] = true
		w.hook = prev
	}
	c.Describe(func() string { return name })
	c.Step(len(ops))
	var crash []*vsched.Crash
	body := []func(){func() { run(0) }}
	if vsched.Foreign > 0 || len(ops) > 2 {
		fin := make(chan []*vsched.Crash, 1)
		go func() { fin <- vsched.Free(body) }()
		select {
		case crash = <-fin:
		case <-time.After(30 * time.Second):
			// what they hold stays held: this process is of no more use
			fmt.Fprintf(os.Stderr, "hang: %s never end\n", name)
			os.Exit(4)
		}
	} else {
		s := vsched.Run(body, func(cur int, en []int, hot bool) int { return en[0] })
		if s.Stalled {
			c.Note("stalled")
			c.Skip()
		}
		if s.Dead != "" {
			c.Fail("%s never end: %s", name, s.Dead)
		}
		crash = s.Panics
	}
	for _, p := range crash {
		if p == nil {
			continue
		}
		if eng.Control(p.Val) {
			panic(p.Val)
		}
		c.Fail("%s: crashed: %v [%s]", name, p.Val, eng.TrimStack(p.Stack))
	}
	for k, i := range ops {
		if want := f.want(f.ops[i]); done[k] && got[k] != want {
			c.Fail("%s: number %d (%s) gives\n%s\nand alone\n%s", name, k, f.ops[i].name, clipS(got[k]), clipS(want))
		}
	}
	w.check(name)
	if !done[len(ops)-1] {
		c.Skip() // an operation used its streams less than it did alone
	}
	c.State(ops, got)
}

// RaceMain runs operations together without control, several times; the race
// detector watches ("rapmc race ROUNDS OP OP ...").
func RaceMain(args []string) int {
	f := conc()
	rounds, _ := strconv.Atoi(args[0])
	for n := 0; n < rounds; n++ {
		w := f.world(&eng.Ctx{})
		var bodies []func()
		got := make([]string, len(args)-1)
		for k, a := range args[1:] {
			i, _ := strconv.Atoi(a)
			k, o := k, f.ops[i]
			bodies = append(bodies, func() { got[k] = o.run(w) })
		}
		for k, p := range vsched.Free(bodies) {
			if p != nil {
				fmt.Printf("operation %d crashed: %v\n%s\n", k, p.Val, p.Stack)
				return 3
			}
		}
		for k := range got {
			fmt.Printf("RESULT %d %q\n", k, got[k])
		}
	}
	return 0
}

// race runs one set of operations in the race-detecting build.
func (f *family) race(c *eng.Ctx, rounds int, ops []int) {
	bin := os.Getenv("RAPMC_RACE")
	if bin == "" {
		c.Skip()
	}
	args := []string{"race", fmt.Sprint(rounds)}
	var names []string
	commands := 0
	for _, i := range ops {
		if strings.HasPrefix(f.ops[i].name, "command") {
			commands++
		}
		args = append(args, fmt.Sprint(i))
		names = append(names, f.ops[i].name)
	}
	if commands > 1 { // package urfave/cli keeps its help flag in a variable
		c.Skip()
	}
	c.Describe(func() string { return strings.Join(names, " | ") })
	c.Step(rounds * len(ops))
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		c.Fail("%s: no end within 60 s", strings.Join(names, " | "))
	}
	if strings.Contains(errb.String(), "WARNING: DATA RACE") {
		c.FailKey("data race: "+raceKey(errb.String()), "%s: data race\n%s", strings.Join(names, " | "), clipS(errb.String()))
	}
	if cmd.ProcessState.ExitCode() == 3 {
		c.Fail("%s: %s", strings.Join(names, " | "), clipS(out.String()))
	}
	if err != nil {
		if strings.Contains(errb.String(), "fatal error") || strings.Contains(errb.String(), "panic") {
			c.Fail("%s: the process died: %s", strings.Join(names, " | "), clipS(errb.String()))
		}
		panic(fmt.Sprintf("race run: %v %s", err, clipS(errb.String())))
	}
	k := 0
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		want := fmt.Sprintf("RESULT %d %q", k%len(ops), f.want(f.ops[ops[k%len(ops)]]))
		if l != want {
			c.Fail("%s at the same time: got\n%s\nand alone\n%s", strings.Join(names, " | "), clipS(l), clipS(want))
		}
		k++
	}
	c.State(ops)
}

// raceKey is the place of the first access.
func raceKey(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "recolude/rap/") && strings.Contains(l, "(") && !strings.Contains(l, "zzverif") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

func init() {
	f := conc()
	families[f.name] = f
	n := len(f.ops)
	pair := func(c *eng.Ctx) []int {
		i := c.Free(n)
		return []int{i, i + c.Free(n-i)}
	}
	streamed := func(c *eng.Ctx) int { // an operation that uses a stream
		i := c.Free(n)
		if f.streamUses(c, f.ops[i]) == 0 {
			c.Skip()
		}
		return i
	}
	reg(&eng.Check{
		ID: "C15", Level: "model_checking",
		Assumptions: []string{"between two statements of the library other threads can run; a statement itself and calls into the Go library are atomic for the scheduler (the race detector covers what is smaller)", "the race detector sees every pair of conflicting accesses that the run makes: without synchronisation in the code, one run decides for all schedules"},
		Phases: []eng.Phase{
			{Name: "pairs", Bound: fmt.Sprintf("all pairs of %d operations, every schedule with at most D preemptions, before any statement of the library or the commands", n), Quick: 1, Thor: 1, Body: func(c *eng.Ctx) {
				f.together(c, pair(c), false, false)
			}},
			{Name: "shared", Bound: "all pairs, at most D preemptions before statements that touch package variables, fields, elements or package sync; every operation repeated afterwards", Quick: 1, Thor: 2, Body: func(c *eng.Ctx) {
				f.together(c, pair(c), true, true)
			}},
			{Name: "triples", Bound: "all triples of operations, at most D preemptions at those points; every operation repeated afterwards", Quick: 0, Thor: 1, Body: func(c *eng.Ctx) {
				p := pair(c)
				f.together(c, append(p, p[1]+c.Free(n-p[1])), true, true)
			}},
			{Name: "nested", Bound: "all pairs: the second runs from start to end in the middle of every single use of the first one's streams", Body: func(c *eng.Ctx) {
				i := streamed(c)
				k := c.Free(f.streamUses(c, f.ops[i]))
				f.nested(c, []int{i, c.Free(n)}, func(op) int { return k })
			}},
			{Name: "crowd", Bound: "300 (thorough 1100) operations under way at once: all pairs of operations with streams, in turn, each stopped at its first, middle or last use of its streams", Body: func(c *eng.Ctx) {
				i, j, where := streamed(c), streamed(c), c.Free(3)
				if c.Tier != "thorough" && j < i {
					c.Skip()
				}
				ops := make([]int, 300)
				if c.Tier == "thorough" {
					ops = make([]int, 1100)
				}
				for l := range ops {
					ops[l] = i
					if l&1 == 1 {
						ops[l] = j
					}
				}
				f.nested(c, ops, func(o op) int {
					u := f.streamUses(c, o)
					return []int{0, u / 2, u - 1}[where]
				})
			}},
			{Name: "races", Bound: "all pairs (except two commands, whose flag library is not made for it), 5 rounds each, in parallel under the race detector", Body: func(c *eng.Ctx) {
				f.race(c, 5, pair(c))
			}},
			{Name: "race triples", Bound: "all triples (with at most one command), 5 rounds each, under the race detector", Body: func(c *eng.Ctx) {
				p := pair(c)
				f.race(c, 5, append(p, p[1]+c.Free(n-p[1])))
			}},
		},
	})
}
