package eng

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/recolude/rap/zzverif/vsched"
)

// Phase is one choice tree.
type Phase struct {
	Name     string
	Bound    string // what is enumerated, in words
	Quick    int    // deviation bound, quick tier
	Thor     int    // deviation bound, thorough tier
	OnlyThor bool
	Body     func(*Ctx)
	More     []Phase // phases that come with it
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string // model_checking | fault_enumeration | exploration
	Rule        string // for fault_enumeration/exploration
	Assumptions []string
	Phases      []Phase
	// Extra runs once in the parent after exploration (e.g. a -race run);
	// it returns evidence and an optional violation message.
	Extra func(tier string) (map[string]interface{}, string)
}

type task struct {
	Phase int
	Cost  int
	Items []Item
}

type reply struct {
	Execs, Edges, Skipped, Steps, Diverged int64
	States                                 []uint64
	Next, Left                             []Item
	Samples                                []string
	Viols                                  []viol
	Bugs                                   []string
	MapLoops                               int64
}

type viol struct {
	Phase int
	Item  Item
	Key   string
	Msg   string
	Hist  []Past // executions that came before in the same process
}

// Past is an execution that came before a failing one.
type Past struct {
	Phase int
	Item  Item
}

const maxPast = 400

// ------------------------------------------------------------------- worker

const curWords = 1024

func mmapCur(path string) []int64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	f.Truncate(curWords * 8)
	b, err := syscall.Mmap(int(f.Fd()), 0, curWords*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*int64)(unsafe.Pointer(&b[0])), curWords)
}

// Worker serves tasks on stdin/stdout.
func Worker(ck *Check, tier, curFile string) {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	cur := mmapCur(curFile)
	in := gob.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	bw := bufio.NewWriterSize(os.Stdout, 1<<16)
	out := gob.NewEncoder(bw)
	os.Stdout = os.Stderr
	seen := map[uint64]struct{}{}
	total := int64(0)
	var past []Past
	for {
		var t task
		if err := in.Decode(&t); err != nil {
			return
		}
		var r reply
		body := ck.Phases[t.Phase].Body
		stack := t.Items
		start := time.Now()
		for len(stack) > 0 {
			if r.Execs&15 == 15 && time.Since(start) > 150*time.Millisecond || len(r.Viols) > 20 {
				break // before the next, so that no branch is lost
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			cur[1] = int64(t.Phase)
			n := len(it)
			if n > curWords-8 {
				n = curWords - 8
			}
			cur[2] = int64(n)
			for i := 0; i < n; i++ {
				cur[3+i] = int64(it[i])
			}
			cur[0]++
			c := &Ctx{item: it, Tier: tier}
			res := runOnce(body, c)
			cur[0]++
			total++
			r.Execs++
			r.Steps += int64(c.steps)
			if c.diverge {
				r.Diverged++
			}
			if res.skipped {
				r.Skipped++
			}
			if res.bug != "" && len(r.Bugs) < 2 {
				r.Bugs = append(r.Bugs, clip(res.bug, 4000))
			}
			r.Edges += int64(c.pos - (it.last()))
			for _, s := range c.states {
				if _, ok := seen[s]; !ok {
					seen[s] = struct{}{}
					r.States = append(r.States, s)
				}
			}
			if res.viol != nil {
				r.Viols = append(r.Viols, viol{t.Phase, it, res.viol.key, res.viol.msg, append([]Past{}, past...)})
			}
			if len(past) >= 2*maxPast {
				past = append([]Past{}, past[len(past)-maxPast:]...)
			}
			past = append(past, Past{t.Phase, it})
			if c.descr != nil && !res.skipped && (total < 4 || total&(total-1) == 0) {
				r.Samples = append(r.Samples, clip(c.descr(), 400))
			}
			base := it.last() + 1
			for i := len(c.ns) - 1; i >= 0; i-- {
				for a := int(c.ns[i]) - 1; a >= 1; a-- {
					ch := make(Item, 0, len(it)+2)
					ch = append(ch, it...)
					ch = append(ch, int32(base+i), int32(a))
					if c.costs[i] == 0 {
						stack = append(stack, ch)
					} else {
						r.Next = append(r.Next, ch)
					}
				}
			}
		}
		r.Left = stack
		r.MapLoops = atomic.SwapInt64(&vsched.MapLoops, 0)
		if err := out.Encode(&r); err != nil {
			return
		}
		bw.Flush()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ------------------------------------------------------------------- parent

// Known is one line of the known findings file.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Match    string `json:"match"`  // regexp over the violation's key
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

// Options of a run.
type Options struct {
	Tier, Work, Replays, Evidence, KnownFile string
	Seed                                     int
	Workers                                  int
	Deadline                                 time.Duration
	PhaseFilter                              string
}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	enc  *gob.Encoder
	dec  *gob.Decoder
	cur  []int64
	errf string
	busy bool
	t    task
	// watchdog
	lastCount, lastCPU int64
}

type event struct {
	w   *worker
	r   *reply
	err error
}

func (o *Options) spawn(id string, n int) (*worker, error) {
	w := &worker{}
	curf := filepath.Join(o.Work, fmt.Sprintf("cur%d", n))
	os.Remove(curf)
	w.cur = mmapCur(curf)
	w.errf = filepath.Join(o.Work, fmt.Sprintf("err%d", n))
	ef, err := os.Create(w.errf)
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(os.Args[0], "worker", id, curf)
	w.cmd.Env = append(os.Environ(), "VERIF_TIER="+o.Tier, "GOTRACEBACK=single")
	w.cmd.Stderr = ef
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := w.cmd.StdinPipe()
	out, _ := w.cmd.StdoutPipe()
	w.in = in
	w.enc = gob.NewEncoder(in)
	w.dec = gob.NewDecoder(bufio.NewReaderSize(out, 1<<16))
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *worker) curItem() (int, Item) {
	n := int(w.cur[2])
	it := make(Item, n)
	for i := range it {
		it[i] = int32(w.cur[3+i])
	}
	return int(w.cur[1]), it
}

func cpuTicks(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return u + k
}

// HangCPU is the CPU time (seconds) one execution may take.
const HangCPU = 25

type phaseStat struct {
	Name, Bound                   string
	Dev                           int
	Completed                     int // highest fully explored deviation bound
	Execs, Edges, Skipped, Unexpl int64
	Steps                         int64
	ByCost                        []int64
}

// Run explores ck and writes evidence; the exit code follows the interface.
func Run(ck *Check, o Options) int {
	start := time.Now()
	deadline := start.Add(o.Deadline)
	phases := ck.Phases
	stats := make([]phaseStat, len(phases))
	var queue [][]task // by cost
	maxD := 0
	bound := make([]int, len(phases))
	for i, p := range phases {
		d := p.Quick
		if o.Tier == "thorough" {
			d = p.Thor
		}
		bound[i] = d
		if p.OnlyThor && o.Tier != "thorough" || o.PhaseFilter != "" && p.Name != o.PhaseFilter {
			bound[i] = -1
		}
		if d > maxD {
			maxD = d
		}
		stats[i] = phaseStat{Name: p.Name, Bound: p.Bound, Dev: bound[i], Completed: -1, ByCost: make([]int64, 12)}
	}
	queue = make([][]task, maxD+2)
	for i := range phases {
		if bound[i] >= 0 {
			queue[0] = append(queue[0], task{i, 0, []Item{{}}})
		}
	}
	known := loadKnown(o.KnownFile, ck.ID)
	knownHit := map[int]string{}
	states := map[uint64]struct{}{}
	var samples []string
	seenSample := map[string]bool{}
	var mapLoops, diverged int64
	var violations []viol
	// harness bugs seen; exploration goes on, since the behaviour the harness
	// does not expect may well be a violation somewhere else
	var bugs []string
	var unrepro []string
	nworkers := o.Workers
	events := make(chan event, 64)
	var ws []*worker
	spawnSeq := 0
	spawn := func() *worker {
		w, err := o.spawn(ck.ID, spawnSeq)
		spawnSeq++
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot start worker:", err)
			os.Exit(2)
		}
		ws = append(ws, w)
		return w
	}
	send := func(w *worker, t task) {
		w.busy, w.t = true, t
		w.lastCount, w.lastCPU = -1, 0
		go func() {
			if err := w.enc.Encode(&t); err != nil {
				events <- event{w, nil, err}
				return
			}
			var r reply
			if err := w.dec.Decode(&r); err != nil {
				events <- event{w, nil, err}
				return
			}
			events <- event{w, &r, nil}
		}()
	}
	for i := 0; i < nworkers; i++ {
		spawn()
	}
	stop := false
	timedOut := false
	handleViol := func(v viol) {
		for i, k := range known {
			if k.Status == "known" && k.re.MatchString(v.Key) {
				knownHit[i] = v.Key
				return
			}
		}
		if len(violations) > 0 || len(unrepro) >= 12 {
			return
		}
		path, ok := confirm(ck, &o, v)
		if !ok {
			unrepro = append(unrepro, fmt.Sprintf("%s: %s", phases[v.Phase].Name, clip(v.Msg, 300)))
			os.Remove(path)
			return
		}
		violations = append(violations, v)
		fmt.Printf("%s %s: %s\n", ck.ID, phases[v.Phase].Name, clip(v.Msg, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		stop = true
	}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for cost := 0; cost <= maxD && !stop; cost++ {
		for !stop {
			// dispatch
			for _, w := range ws {
				if w.busy || len(queue[cost]) == 0 || timedOut {
					continue
				}
				q := queue[cost]
				t := q[len(q)-1]
				q = q[:len(q)-1]
				// split big tasks among idle workers
				max := 256
				if len(q) < nworkers && len(t.Items) > 1 {
					max = (len(t.Items) + nworkers - 1) / nworkers
					if max > 256 {
						max = 256
					}
				}
				if len(t.Items) > max {
					q = append(q, task{t.Phase, t.Cost, t.Items[:len(t.Items)-max]})
					t.Items = t.Items[len(t.Items)-max:]
				}
				queue[cost] = q
				send(w, t)
			}
			busy := 0
			for _, w := range ws {
				if w.busy {
					busy++
				}
			}
			if busy == 0 {
				break
			}
			select {
			case ev := <-events:
				w := ev.w
				w.busy = false
				if ev.err != nil {
					// the worker died: attribute to the execution in progress
					w.cmd.Process.Kill()
					w.cmd.Wait()
					ph, it := w.curItem()
					msg, _ := os.ReadFile(w.errf)
					m := string(msg)
					if strings.Contains(m, "harness bug") {
						fmt.Fprintln(os.Stderr, clip(m, 4000))
						os.Exit(2)
					}
					handleViol(viol{Phase: ph, Item: it, Key: "process died: " + firstLine(m), Msg: "the process running this execution died: " + clip(m, 1500)})
					for i := range ws {
						if ws[i] == w {
							ws = append(ws[:i], ws[i+1:]...)
							break
						}
					}
					if !stop {
						// the rest of the task is lost to exploration: count it
						timedOut = timedOut || false
						stats[w.t.Phase].Unexpl += int64(len(w.t.Items))
						spawn()
					}
					continue
				}
				r := ev.r
				st := &stats[w.t.Phase]
				st.Execs += r.Execs
				st.Edges += r.Edges
				st.Skipped += r.Skipped
				st.Steps += r.Steps
				st.ByCost[cost] += r.Execs
				mapLoops += r.MapLoops
				diverged += r.Diverged
				for _, s := range r.States {
					states[s] = struct{}{}
				}
				for _, s := range r.Samples {
					if !seenSample[s] && len(samples) < 40 {
						seenSample[s] = true
						samples = append(samples, phases[w.t.Phase].Name+": "+s)
					}
				}
				if len(bugs) < 4 {
					bugs = append(bugs, r.Bugs...)
				}
				for _, v := range r.Viols {
					if !stop {
						handleViol(v)
					}
				}
				if len(r.Left) > 0 {
					queue[cost] = append(queue[cost], task{w.t.Phase, cost, r.Left})
				}
				if len(r.Next) > 0 && cost+1 <= bound[w.t.Phase] {
					queue[cost+1] = append(queue[cost+1], task{w.t.Phase, cost + 1, r.Next})
				}
			case <-tick.C:
				if time.Now().After(deadline) {
					timedOut = true
				}
				for _, w := range ws {
					if !w.busy {
						continue
					}
					cnt := w.cur[0]
					cpu := cpuTicks(w.cmd.Process.Pid)
					if cnt != w.lastCount || cnt&1 == 0 {
						w.lastCount, w.lastCPU = cnt, cpu
					} else if cpu-w.lastCPU > HangCPU*100 {
						f, _ := os.OpenFile(w.errf, os.O_APPEND|os.O_WRONLY, 0)
						fmt.Fprintf(f, "hang: more than %d s of CPU time in one execution\n", HangCPU)
						f.Close()
						w.cmd.Process.Kill()
						w.lastCPU = cpu + 1e9
					}
				}
			}
		}
		if timedOut {
			break
		}
		for i := range stats {
			if bound[i] >= cost && !stop {
				stats[i].Completed = cost
			}
		}
	}
	for c := range queue {
		for _, t := range queue[c] {
			stats[t.Phase].Unexpl += int64(len(t.Items))
		}
	}
	for _, w := range ws {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
	var extra map[string]interface{}
	if ck.Extra != nil && !stop {
		var msg string
		extra, msg = ck.Extra(o.Tier)
		if msg != "" {
			v := viol{Key: msg, Msg: msg}
			path := saveReplay(ck, &o, v, "extra", nil)
			violations = append(violations, v)
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		}
	}
	kk := make([]int, 0)
	for i := range knownHit {
		kk = append(kk, i)
	}
	sort.Ints(kk)
	for _, i := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, known[i].What)
	}
	// ------------------------------------------------------------ evidence
	var ex, edges, skipped, unexpl, steps int64
	var ph []map[string]interface{}
	exhaustive := true
	for i, s := range stats {
		if bound[i] < 0 {
			continue
		}
		ex += s.Execs
		edges += s.Edges
		skipped += s.Skipped
		unexpl += s.Unexpl
		steps += s.Steps
		if s.Completed < s.Dev || s.Unexpl > 0 {
			exhaustive = false
		}
		ph = append(ph, map[string]interface{}{"phase": s.Name, "enumerated": s.Bound, "deviation_bound": s.Dev, "deviation_bound_completed": s.Completed,
			"executions": s.Execs, "executions_by_deviations": trimZ(s.ByCost), "not_a_case": s.Skipped, "unexplored": s.Unexpl})
	}
	if diverged > 0 {
		exhaustive = false
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   edges,
		"traces_validated_against_impl": ex - skipped,
		"samples":                       samples,
		"exhaustive":                    exhaustive && len(violations) == 0 && len(bugs) == 0,
		"operations_on_real_code":       steps,
		"phases":                        ph,
		"unexplored_items":              unexpl,
		"map_loops_controlled":          mapLoops,
		"diverged_replays":              diverged,
		"build":                         vsched.BuildInfo,
		"states_rule":                   "distinct 64-bit fingerprints of (case, observed result); transitions are edges of the explored choice tree; every execution runs the real code and is compared with the reference model",
	}
	if ck.Level == "fault_enumeration" || ck.Level == "exploration" {
		cov["evaluations"] = ex
		cov["distinct_nontrivial"] = len(states)
		cov["rule"] = ck.Rule
		delete(cov, "states")
		delete(cov, "traces_validated_against_impl")
	}
	if len(unrepro) > 0 {
		cov["unreproducible_failures_not_reported"] = unrepro
	}
	for k, v := range extra {
		cov[k] = v
	}
	if samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": o.Tier, "seed": o.Seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(o.Evidence), 0o755)
	if err := os.WriteFile(o.Evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs build=%q\n", ck.ID, o.Tier, ex, len(states), edges, cov["exhaustive"], time.Since(start).Seconds(), vsched.BuildInfo)
	for _, p := range ph {
		fmt.Printf("  %-28v D<=%v done=%v executions=%v %v skipped=%v unexplored=%v\n", p["phase"], p["deviation_bound"], p["deviation_bound_completed"], p["executions"], p["executions_by_deviations"], p["not_a_case"], p["unexplored"])
	}
	for _, u := range unrepro {
		fmt.Println("  unreproducible:", u)
	}
	if len(violations) > 0 {
		return 1
	}
	if len(bugs) > 0 {
		fmt.Fprintln(os.Stderr, bugs[0])
		return 2
	}
	return 0
}

func trimZ(a []int64) []int64 {
	n := len(a)
	for n > 0 && a[n-1] == 0 {
		n--
	}
	return a[:n]
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type replayFile struct {
	Property string `json:"property"`
	Phase    string `json:"phase"`
	Choices  Item   `json:"choices"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Tier     string `json:"tier"`
	How      string `json:"how"`
	// History is run first, in the same process: the failure depends on it.
	History []pastJSON `json:"history,omitempty"`
}

type pastJSON struct {
	Phase   string `json:"phase"`
	Choices Item   `json:"choices"`
}

func saveReplay(ck *Check, o *Options, v viol, phase string, hist []Past) string {
	h := fnv.New32a()
	fmt.Fprint(h, phase, v.Item, v.Key)
	path := filepath.Join(o.Replays, fmt.Sprintf("%s-%08x.json", ck.ID, h.Sum32()))
	os.MkdirAll(o.Replays, 0o755)
	rf := replayFile{Property: ck.ID, Phase: phase, Choices: v.Item, Key: v.Key, Message: clip(v.Msg, 4000), Tier: o.Tier, How: "./check replay " + path}
	for _, p := range hist {
		rf.History = append(rf.History, pastJSON{ck.Phases[p.Phase].Name, p.Item})
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// confirm re-runs a failing execution in fresh processes: alone, and when it
// does not fail alone, after the executions that preceded it.
func confirm(ck *Check, o *Options, v viol) (string, bool) {
	path := saveReplay(ck, o, v, ck.Phases[v.Phase].Name, nil)
	n := 3
	if strings.Contains(v.Msg, "hang:") {
		n = 1
	}
	if confirmN(o, path, n, true) {
		return path, true
	}
	for _, k := range []int{20, 2 * maxPast} {
		h := v.Hist
		if len(h) == 0 {
			break
		}
		if len(h) > k {
			h = h[len(h)-k:]
		}
		path = saveReplay(ck, o, v, ck.Phases[v.Phase].Name, h)
		if confirmN(o, path, 2, false) {
			return path, true
		}
	}
	return path, false
}

func confirmN(o *Options, path string, n int, hangs bool) bool {
	for i := 0; i < n; i++ {
		cmd := exec.Command(os.Args[0], "replay", path)
		cmd.Env = append(os.Environ(), "VERIF_TIER="+o.Tier, "GOTRACEBACK=single")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return false
		}
		go func() { done <- cmd.Wait() }()
		hang := false
		var err error
	wait:
		for {
			select {
			case err = <-done:
				break wait
			case <-time.After(500 * time.Millisecond):
				if cpuTicks(cmd.Process.Pid) > HangCPU*100 {
					hang = true
					cmd.Process.Kill()
				}
			}
		}
		if err == nil && !hang || hang && !hangs {
			return false
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == harnessBug {
			return false
		}
	}
	return true
}

// harnessBug is the exit code of a replay that ended in the harness itself.
const harnessBug = 3

// Replay runs one recorded execution; exit 1 when it fails.
func Replay(cks map[string]*Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := cks[rf.Property]
	if ck == nil {
		return 2
	}
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMemoryLimit(1 << 30)
	for _, h := range rf.History {
		for _, p := range ck.Phases {
			if p.Name == h.Phase {
				runOnce(p.Body, &Ctx{item: h.Choices, Tier: rf.Tier})
			}
		}
	}
	for _, p := range ck.Phases {
		if p.Name != rf.Phase {
			continue
		}
		c := &Ctx{item: rf.Choices, Tier: rf.Tier, Replay: true}
		r := runOnce(p.Body, c)
		if c.descr != nil {
			fmt.Println("case:", c.descr())
		}
		for _, n := range c.notes {
			fmt.Println(n)
		}
		if r.bug != "" {
			fmt.Fprintln(os.Stderr, r.bug)
			return harnessBug
		}
		if r.viol != nil {
			fmt.Println("FAILS:", r.viol.msg)
			return 1
		}
		fmt.Println("holds (skipped:", r.skipped, ")")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such phase")
	return 2
}

type knownRe struct {
	Known
	re *regexp.Regexp
}

func loadKnown(path, id string) []knownRe {
	var out []knownRe
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id {
			re := regexp.MustCompile(k.Match)
			out = append(out, knownRe{k, re})
		}
	}
	return out
}
