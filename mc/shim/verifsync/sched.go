// Package verifsync is a stand-in for package sync with a scheduler that runs threads one at a time and decides at
// every scheduling point which one continues. Outside of Run everything behaves like package sync.
package verifsync

import (
	"fmt"
	realsync "sync"
	"sync/atomic"
	"time"
)

const (
	maxThreads = 4
	maxPoints  = 1 << 20
)

// Kinds of scheduling points.
const (
	KindVar  = 1 << iota // access to a package-level variable
	KindSync             // lock, once, atomic, map
	KindPool             // pool
	KindAll  = KindVar | KindSync | KindPool
)

type thread struct {
	ch      chan struct{}
	started bool
	done    bool
	waits   *bool // blocked while true
	steps   int32
}

type point struct {
	enabled int8 // number of enabled threads
	running bool // the running thread was one of them
	choice  int8
	cost    int32 // preemptions before this point
	state   uint64
}

type sched struct {
	n       int
	threads [maxThreads]thread
	cur     int
	kinds   int
	prefix  []Dev
	points  []point
	np      int
	nd      int // deviations applied
	cost    int32
	steps   int64
	bad     bool // a deviation that does not fit
	dead    bool
	over    bool
	finish  chan struct{}
}

// Dev is a deviation from the default schedule: at branching point At the Alt-th enabled thread continues.
type Dev struct {
	At, Alt int
}

// active is read at every scheduling point.
var active *sched

var pointBuf = make([]point, maxPoints)

// Branch describes one branching point of an execution.
type Branch struct {
	Enabled int
	Running bool // switching away from the running thread is a preemption
	Cost    int  // preemptions before this point
	State   uint64
}

// Result of one execution.
type Result struct {
	Branches  []Branch
	Preempted int
	Steps     int64
	Diverged  bool
	Deadlock  bool
	Overflow  bool // too many points, the rest ran without preemption
	Stalled   bool // a thread blocked outside of the scheduler, the execution was released
	Panics    []interface{}
}

//go:norace
func (s *sched) enabled(i int) bool {
	t := &s.threads[i]
	return !t.done && (t.waits == nil || !*t.waits)
}

// pick decides which thread runs next; -1 if none can.
//
//go:norace
func (s *sched) pick() int {
	var en [maxThreads]int
	n := 0
	running := false
	if s.enabled(s.cur) {
		en[0] = s.cur
		n = 1
		running = true
	}
	for i := 0; i < s.n; i++ {
		if i != s.cur && s.enabled(i) {
			en[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return en[0]
	}
	if s.np >= len(s.points) {
		s.over = true
		return en[0]
	}
	choice := 0
	if s.nd < len(s.prefix) && s.prefix[s.nd].At == s.np {
		choice = s.prefix[s.nd].Alt
		s.nd++
		if choice >= n {
			s.bad = true
			choice = 0
		}
	}
	h := uint64(s.cur) + 1
	for i := 0; i < s.n; i++ {
		h = (h ^ uint64(s.threads[i].steps)) * 1099511628211
		h = (h<<7 | h>>57) + 0x9e3779b97f4a7c15
	}
	s.points[s.np] = point{int8(n), running, int8(choice), s.cost, h}
	s.np++
	if running && choice > 0 {
		s.cost++
	}
	return en[choice]
}

// yield lets the scheduler decide who continues; the caller continues when it is chosen.
//
//go:norace
func (s *sched) yield(me int) {
	for {
		next := s.pick()
		if next == me {
			return
		}
		if next < 0 {
			s.dead = true
			raceOff()
			s.finish <- struct{}{}
			<-s.threads[me].ch // for ever
			raceOn()
			return
		}
		s.cur = next
		raceOff()
		s.threads[next].ch <- struct{}{}
		<-s.threads[me].ch
		raceOn()
		if s.threads[me].waits == nil || !*s.threads[me].waits {
			return
		}
	}
}

// Point is a scheduling point.
//
//go:norace
func Point(kind int) {
	s := active
	if s == nil || s.kinds&kind == 0 || s.released() {
		return
	}
	me := s.cur
	s.steps++
	s.threads[me].steps++
	s.yield(me)
}

// wait blocks the running thread until *b is false.
//
//go:norace
func wait(b *bool) bool {
	s := active
	if s == nil || s.released() {
		return false
	}
	for *b {
		me := s.cur
		s.threads[me].waits = b
		s.yield(me)
		s.threads[me].waits = nil
	}
	return true
}

//go:norace
func managed() bool { return active != nil && !active.released() }

var releasedFlag int32

func (s *sched) released() bool { return atomic.LoadInt32(&releasedFlag) != 0 }

//go:norace
func (s *sched) exit(me int) {
	s.threads[me].done = true
	next := s.pick()
	if next >= 0 {
		s.cur = next
		raceOff()
		s.threads[next].ch <- struct{}{}
		raceOn()
		return
	}
	for i := 0; i < s.n; i++ {
		if !s.threads[i].done {
			s.dead = true
		}
	}
	raceOff()
	s.finish <- struct{}{}
	raceOn()
}

//go:norace
func (s *sched) body(me int, f func(), pan *interface{}, wg *realsync.WaitGroup) {
	raceOff()
	<-s.threads[me].ch
	raceOn()
	call(f, pan)
	if !s.released() {
		s.exit(me)
	}
	wg.Done()
}

func call(f func(), pan *interface{}) {
	defer func() {
		if e := recover(); e != nil {
			*pan = fmt.Sprintf("%v", e)
		}
	}()
	f()
}

// Run executes the bodies under the schedule given by the deviations.
func Run(kinds int, devs []Dev, bodies ...func()) Result {
	s := &sched{n: len(bodies), kinds: kinds, prefix: devs, points: pointBuf, finish: make(chan struct{}, 1)}
	atomic.StoreInt32(&releasedFlag, 0)
	res := Result{Panics: make([]interface{}, len(bodies))}
	var wg realsync.WaitGroup
	for i := range bodies {
		s.threads[i].ch = make(chan struct{}, 1)
	}
	active = s
	for i := range bodies {
		wg.Add(1)
		go s.body(i, bodies[i], &res.Panics[i], &wg)
	}
	s.start()
	timeout := time.NewTimer(20 * time.Second)
	select {
	case <-s.finish:
		timeout.Stop()
	case <-timeout.C:
		// Blocked on something the scheduler does not know: let everything run.
		res.Stalled = true
		atomic.StoreInt32(&releasedFlag, 1)
		for i := range bodies {
			select {
			case s.threads[i].ch <- struct{}{}:
			default:
			}
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(30 * time.Second):
			res.Deadlock = true
		}
		active = nil
		return res
	}
	active = nil
	if !s.dead {
		wg.Wait()
	}
	res.Deadlock, res.Diverged, res.Overflow = s.dead, s.bad || s.nd < len(devs), s.over
	res.Preempted, res.Steps = int(s.cost), s.steps
	res.Branches = make([]Branch, s.np)
	for i := range res.Branches {
		p := s.points[i]
		res.Branches[i] = Branch{int(p.enabled), p.running, int(p.cost), p.state}
	}
	return res
}

//go:norace
func (s *sched) start() {
	s.cur = 0
	// The first thread is a choice as well.
	next := s.pick()
	s.cur = next
	raceOff()
	s.threads[next].ch <- struct{}{}
	raceOn()
}
