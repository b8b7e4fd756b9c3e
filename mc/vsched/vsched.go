// Package vsched is the seam between the instrumented library and the
// explorer: it decides map iteration order and thread interleaving.
package vsched

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- map order

// Entry is one key of a map that is being iterated.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the key is still in the map (a deleted key must not be
// visited any more).
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the value the key has now.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// OrderHook, when set, returns the permutation in which n (sorted) keys are
// visited; nil means sorted order.
var OrderHook func(n int) []int

// MapLoops counts map iterations (for evidence).
var MapLoops int64

// Entries lists a map's keys in the order the explorer chose.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	count()
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
	}
	if len(es) > 1 {
		if _, ok := interface{}(es[0].K).(string); ok {
			sort.Slice(es, func(i, j int) bool {
				return interface{}(es[i].K).(string) < interface{}(es[j].K).(string)
			})
		} else {
			ks := make(map[int]string, len(es))
			idx := make([]int, len(es))
			for i := range es {
				ks[i] = fmt.Sprintf("%020v", es[i].K)
				idx[i] = i
			}
			sort.SliceStable(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
			ns := make([]Entry[K, V], len(es))
			for i, j := range idx {
				ns[i] = es[j]
			}
			es = ns
		}
		if OrderHook != nil {
			if p := OrderHook(len(es)); p != nil {
				ns := make([]Entry[K, V], len(es))
				for i, j := range p {
					ns[i] = es[j]
				}
				es = ns
			}
		}
	}
	return es
}

// Begin starts a loop over a map: index, entries, and loop variables.
func Begin[M ~map[K]V, K comparable, V any](m M) (i int, l []Entry[K, V], k K, v V) {
	l = Entries(m)
	return
}

// ---------------------------------------------------------------- scheduler

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked bool // in Block(): waits for another thread to make progress
}

// Crash is a panic that ended a thread.
type Crash struct {
	Val   interface{}
	Stack string
}

// Chooser picks the thread to run next among enabled; cur is the running
// thread (enabled[0]), or -1 when it cannot go on. hot tells that the next
// statement of cur touches something threads could share.
type Chooser func(cur int, enabled []int, hot bool) int

// Sched is one controlled execution of several threads.
type Sched struct {
	threads []*thread
	cur     *thread
	choose  Chooser
	alldone chan struct{}
	Points  int
	Dead    string // why every thread waits
	Stalled bool   // a thread blocked in something the scheduler does not know
	Panics  []*Crash
}

var active atomic.Pointer[Sched]

// Broken is set once an execution has stalled: its threads are still around.
var Broken atomic.Bool

// P is a scheduling point.
func P() {
	if s := active.Load(); s != nil {
		s.point(false, false)
	}
}

// H is a scheduling point before a statement that touches something that could
// be shared.
func H() {
	if s := active.Load(); s != nil {
		s.point(false, true)
	}
}

// Block is called by a thread that cannot proceed (lock taken).
func Block() {
	s := active.Load()
	if s == nil {
		runtime.Gosched()
		return
	}
	s.point(true, true)
}

func (s *Sched) point(block, hot bool) {
	t := s.cur
	if t == nil {
		return
	}
	if !block {
		s.Points++
		n := s.choose(t.id, s.enabled(t), hot)
		if n != t.id {
			s.switchTo(n, t)
		}
		return
	}
	t.blocked = true
	en := s.enabled(nil)
	if len(en) == 0 {
		s.Dead = "every unfinished thread waits for another one"
		panic("deadlock")
	}
	s.switchTo(s.choose(-1, en, true), t)
	t.blocked = false
}

// enabled lists runnable threads, the running one first.
func (s *Sched) enabled(cur *thread) []int {
	var r []int
	if cur != nil {
		r = append(r, cur.id)
	}
	for _, t := range s.threads {
		if t != cur && !t.done && !t.blocked {
			r = append(r, t.id)
		}
	}
	return r
}

func (s *Sched) switchTo(n int, from *thread) {
	to := s.threads[n]
	for _, t := range s.threads { // progress elsewhere: let lock waiters retry
		if t != from && t.blocked {
			t.blocked = false
		}
	}
	s.cur = to
	to.wake <- struct{}{}
	<-from.wake
}

func (s *Sched) finish(t *thread) {
	t.done = true
	en := s.enabled(nil)
	if len(en) == 0 {
		for _, o := range s.threads {
			if !o.done && o.blocked {
				o.blocked = false
				en = append(en, o.id)
			}
		}
	}
	if len(en) == 0 {
		s.cur = nil
		close(s.alldone)
		return
	}
	n := en[0]
	func() {
		defer func() { recover() }()
		n = s.choose(-1, en, true)
	}()
	for _, o := range s.threads {
		o.blocked = false
	}
	to := s.threads[n]
	s.cur = to
	to.wake <- struct{}{}
}

func (s *Sched) add(b func()) *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	s.Panics = append(s.Panics, nil)
	go func() {
		<-t.wake
		defer s.finish(t)
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8192)
				s.Panics[t.id] = &Crash{r, string(buf[:runtime.Stack(buf, false)])}
			}
		}()
		b()
	}()
	return t
}

// Run executes the bodies under the chooser.
func Run(bodies []func(), choose Chooser) *Sched {
	s := &Sched{choose: choose, alldone: make(chan struct{})}
	var all []int
	for _, b := range bodies {
		all = append(all, s.add(b).id)
	}
	n := choose(-1, all, true)
	active.Store(s)
	s.cur = s.threads[n]
	s.threads[n].wake <- struct{}{}
	select {
	case <-s.alldone:
	case <-time.After(15 * time.Second):
		s.Stalled = true
		Broken.Store(true)
	}
	active.Store(nil)
	return s
}

// Free runs the bodies without control.
func Free(bodies []func()) []*Crash {
	crash := make([]*Crash, len(bodies))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, b := range bodies {
		i, b := i, b
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 8192)
					crash[i] = &Crash{r, string(buf[:runtime.Stack(buf, false)])}
				}
			}()
			<-start
			b()
		}()
	}
	close(start)
	wg.Wait()
	return crash
}

// ------------------------------------------- replacements of package sync

var mu sync.Mutex
var pools = map[*sync.Pool][]any{}
var groups = map[*sync.WaitGroup]int{}
var onces = map[*sync.Once]int{}

// Reset forgets what pools hold (a collector may do so at any time).
func Reset() {
	mu.Lock()
	if len(pools) > 0 {
		pools = map[*sync.Pool][]any{}
	}
	if len(groups) > 0 {
		groups = map[*sync.WaitGroup]int{}
	}
	mu.Unlock()
}

// PoolGet gives what was put last.
func PoolGet(p *sync.Pool) any {
	mu.Lock()
	l := pools[p]
	if n := len(l); n > 0 {
		x := l[n-1]
		pools[p] = l[:n-1]
		mu.Unlock()
		return x
	}
	mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut keeps x.
func PoolPut(p *sync.Pool, x any) {
	if x == nil {
		return
	}
	mu.Lock()
	pools[p] = append(pools[p], x)
	mu.Unlock()
}

// OnceDo runs f once; others wait until it is done.
func OnceDo(o *sync.Once, f func()) {
	if active.Load() == nil {
		o.Do(f)
		return
	}
	for {
		mu.Lock()
		st := onces[o]
		if st == 0 {
			onces[o] = 1
		}
		mu.Unlock()
		if st != 1 {
			break
		}
		Block()
	}
	defer func() {
		mu.Lock()
		onces[o] = 2
		mu.Unlock()
	}()
	o.Do(f)
}

// Go starts a thread.
func Go(f func()) {
	s := active.Load()
	if s == nil || s.cur == nil {
		go f()
		return
	}
	s.add(f)
}

// WGAdd and the others are a WaitGroup whose waiting is known to the scheduler.
func WGAdd(w *sync.WaitGroup, n int) {
	if active.Load() == nil {
		w.Add(n)
		return
	}
	mu.Lock()
	groups[w] += n
	neg := groups[w] < 0
	mu.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}

func WGDone(w *sync.WaitGroup) { WGAdd(w, -1) }

func WGWait(w *sync.WaitGroup) {
	if active.Load() == nil {
		w.Wait()
		return
	}
	for {
		mu.Lock()
		n := groups[w]
		mu.Unlock()
		if n <= 0 {
			return
		}
		Block()
	}
}

func WGGo(w *sync.WaitGroup, f func()) {
	WGAdd(w, 1)
	Go(func() { defer WGDone(w); f() })
}
