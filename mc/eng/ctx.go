// Package eng is a stateless model checker: it enumerates every execution of a
// check body over the tree of choices the body makes, bounded by the number of
// deviations from default choices, and runs the real code in each.
package eng

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime"
	"strings"

	"github.com/recolude/rap/zzverif/vsched"
)

// Item is one execution to run, given by its non-default choices: pairs
// (choice index, alternative). All other choices are 0.
type Item []int32

func (it Item) last() int {
	if len(it) == 0 {
		return -1
	}
	return int(it[len(it)-2])
}

// Ctx is one execution.
type Ctx struct {
	item    Item
	ip      int
	pos     int
	ns      []int32 // alternatives at each point >= last+1
	costs   []byte
	states  []uint64
	steps   int
	skipped bool
	descr   func() string
	Tier    string
	Replay  bool
	notes   []string
	diverge bool
}

type violation struct{ key, msg string }
type skip struct{}

// choose returns an alternative in [0,n).
func (c *Ctx) choose(n int, cost byte) int {
	if n <= 0 {
		panic("choice with no alternative")
	}
	i := c.pos
	c.pos++
	if c.ip < len(c.item) && int(c.item[c.ip]) == i {
		a := int(c.item[c.ip+1])
		c.ip += 2
		if a >= n {
			c.diverge = true
			panic(skip{})
		}
		return a
	}
	if i > c.item.last() {
		c.ns = append(c.ns, int32(n))
		c.costs = append(c.costs, cost)
	}
	return 0
}

// Dev is a choice whose alternatives other than 0 count as one deviation.
func (c *Ctx) Dev(n int) int { return c.choose(n, 1) }

// Free is a choice all of whose alternatives are explored at no cost.
func (c *Ctx) Free(n int) int { return c.choose(n, 0) }

// FreeRange picks from lo..hi.
func (c *Ctx) FreeRange(lo, hi int) int { return lo + c.Free(hi-lo+1) }

// Fail ends the execution with a violation.
func (c *Ctx) Fail(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	k := m
	if i := strings.IndexByte(k, '\n'); i >= 0 {
		k = k[:i]
	}
	panic(violation{k, m})
}

// FailKey is Fail with an explicit identifier of the failing input/site.
func (c *Ctx) FailKey(key, format string, a ...interface{}) {
	panic(violation{key, fmt.Sprintf(format, a...)})
}

// Skip ends the execution: the combination of choices is not a case.
func (c *Ctx) Skip() { panic(skip{}) }

// Step counts n operations of the system under test.
func (c *Ctx) Step(n int) { c.steps += n }

// State records an observed state (hashed).
func (c *Ctx) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case []byte:
			h.Write(x)
		case uint64:
			var b [8]byte
			for i := range b {
				b[i] = byte(x >> (8 * i))
			}
			h.Write(b[:])
		case float64:
			u := math.Float64bits(x)
			var b [8]byte
			for i := range b {
				b[i] = byte(u >> (8 * i))
			}
			h.Write(b[:])
		case error:
			if x == nil {
				h.Write([]byte{0})
			} else {
				h.Write([]byte(x.Error()))
			}
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xff})
	}
	c.states = append(c.states, h.Sum64())
}

// Describe sets the human readable description of the case.
func (c *Ctx) Describe(f func() string) { c.descr = f }

// Note adds a line to the replay log.
func (c *Ctx) Note(format string, a ...interface{}) {
	if c.Replay {
		c.notes = append(c.notes, fmt.Sprintf(format, a...))
	}
}

// Catch runs f and reports a panic as an error value (with stack).
func Catch(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case violation, skip:
				panic(r)
			}
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			p, stack = r, trimStack(string(buf))
		}
	}()
	f()
	return nil, ""
}

// Control tells whether a panic is one of the explorer's own.
func Control(v interface{}) bool {
	switch v.(type) {
	case violation, skip:
		return true
	}
	return false
}

// TrimStack keeps the frames of the code under test.
func TrimStack(s string) string { return trimStack(s) }

// trimStack keeps the frames of the code under test.
func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "recolude/rap/") && !strings.Contains(lines[i], "zzverif/") {
			l := lines[i]
			if k := strings.Index(l, "("); k > 0 && strings.Contains(l, "recolude/rap/") {
				l = l[strings.Index(l, "recolude/rap/")+len("recolude/rap/"):]
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
			}
			out = append(out, l)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// NoPanic runs f; a panic in it is a violation.
func (c *Ctx) NoPanic(what string, f func()) {
	c.Step(1)
	if p, st := Catch(f); p != nil {
		c.Fail("%s crashed: %v [%s]", what, p, st)
	}
}

type result struct {
	viol    *violation
	skipped bool
	// bug is a panic that does not come from the code under test: the
	// harness met something it does not expect.
	bug string
}

// runOnce executes body for item.
func runOnce(body func(*Ctx), c *Ctx) (r result) {
	vsched.Reset()
	defer func() {
		vsched.OrderHook = nil
		if p := recover(); p != nil {
			switch v := p.(type) {
			case violation:
				r.viol = &v
			case skip:
				r.skipped = true
			default:
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				st := trimStack(string(buf))
				if st == "" {
					r.bug = fmt.Sprintf("harness bug: %v\n%s", p, buf)
					return
				}
				r.viol = &violation{fmt.Sprintf("crash: %v [%s]", p, st), fmt.Sprintf("crash: %v\n%s", p, buf)}
			}
		}
	}()
	body(c)
	return
}

// MapOrder makes the explorer choose the iteration order of maps from now on:
// each loop over n>1 keys is a choice (deviation cost 1).
func (c *Ctx) MapOrder() {
	vsched.OrderHook = func(n int) []int {
		k := c.Dev(numOrders(n))
		return order(n, k)
	}
}

// MapPolicies is the number of policies of MapPolicy.
const MapPolicies = 6

// MapPolicy fixes the iteration order of all maps from now on: 0 ascending, 1
// descending, 2 and 3 alternating, 4 rotated further by every loop, 5 another
// permutation for every loop.
func (c *Ctx) MapPolicy(policy int) {
	call := 0
	vsched.OrderHook = func(n int) []int {
		call++
		p := make([]int, n)
		for i := range p {
			switch policy {
			case 0:
				p[i] = i
			case 1:
				p[i] = n - 1 - i
			case 2, 3:
				p[i] = i
				if call&1 == policy&1 {
					p[i] = n - 1 - i
				}
			case 4:
				p[i] = (i + call) % n
			case 5:
				if n <= 4 {
					return order(n, call%numOrders(n))
				}
				// a different stride through the keys for every loop
				p[i] = i
				if s := 2 + call%5; n%s != 0 && s < n && gcd(s, n) == 1 {
					p[i] = (i*s + call) % n
				}
			}
		}
		return p
	}
}

// MapNatural goes back to ascending order.
func (c *Ctx) MapNatural() { vsched.OrderHook = nil }

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func numOrders(n int) int {
	switch {
	case n <= 1:
		return 1
	case n == 2:
		return 2
	case n == 3:
		return 6
	case n == 4:
		return 24
	default:
		return 2*n - 1 // rotations of ascending and of descending order
	}
}

func order(n, k int) []int {
	if k == 0 || n < 2 {
		return nil
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n <= 4 { // k-th permutation
		avail := append([]int{}, p...)
		f := 1
		for i := 2; i < n; i++ {
			f *= i
		}
		for i := 0; i < n; i++ {
			j := k / f
			k %= f
			p[i] = avail[j]
			avail = append(avail[:j:j], avail[j+1:]...)
			if n-1-i > 0 {
				f /= n - 1 - i
			}
		}
		return p
	}
	for i := range p {
		if k < n {
			p[i] = (i + k) % n
		} else {
			p[i] = ((n - 1 - i) + (k - n)) % n
		}
	}
	return p
}
