//go:build go1.22

// Package sched is a controlled scheduler: instrumented code calls Point before every statement, one goroutine runs at a
// time and every choice of the next one is explored, up to a number of preemptions. Hand-offs are hidden from the race
// detector, so it sees exactly the synchronization of the code under test.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

// Aliases of what is not controlled.
type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type thread struct {
	wake    chan struct{}
	done    bool
	blocked func() bool
}

type choice struct {
	taken   int
	options int
}

type execution struct {
	threads     []*thread
	current     int
	choices     []choice
	prefix      []int
	bound       int
	preemptions int
	points      int
	failure     string
	finished    chan struct{}
	dead        bool
	diverged    bool
}

var active *execution

const maxPoints = 2000000

// Point is a scheduling point.
//
//go:norace
func Point() {
	if e := active; e != nil && !e.dead {
		e.reschedule()
	}
}

//go:norace
func (e *execution) enabled(i int) bool {
	t := e.threads[i]

	return !t.done && (t.blocked == nil || !t.blocked())
}

// reschedule chooses the next thread and waits until the current one is chosen again (unless it is done).
//
//go:norace
func (e *execution) reschedule() {
	me := e.current
	self := e.threads[me]
	e.points++

	if e.points > maxPoints && e.failure == "" {
		e.failure = "execution does not finish"
		e.stop()

		select {}
	}

	options := make([]int, 0, 4)
	if e.enabled(me) {
		options = append(options, me)
	}

	preemptive := len(options) > 0

	if !preemptive || e.preemptions < e.bound {
		for i := range e.threads {
			if i != me && e.enabled(i) {
				options = append(options, i)
			}
		}
	}

	if len(options) == 0 {
		for _, t := range e.threads {
			if !t.done && e.failure == "" {
				e.failure = "deadlock: no goroutine can continue"
			}
		}

		e.stop()

		if self.done {
			return
		}

		select {}
	}

	taken := 0

	if len(options) > 1 {
		if len(e.choices) < len(e.prefix) {
			taken = e.prefix[len(e.choices)]
		}

		if taken >= len(options) { // code under test behaves differently in the same schedule
			e.diverged = true
			taken = 0
		}

		e.choices = append(e.choices, choice{taken, len(options)})
	}

	next := options[taken]
	if next == me {
		return
	}

	if preemptive {
		e.preemptions++
	}

	e.current = next
	runtime.RaceDisable()
	e.threads[next].wake <- struct{}{}
	runtime.RaceEnable()

	if self.done {
		return
	}

	runtime.RaceDisable()
	<-self.wake
	runtime.RaceEnable()
}

//go:norace
func (e *execution) stop() {
	e.dead = true
	runtime.RaceDisable()
	e.finished <- struct{}{}
	runtime.RaceEnable()
}

// block waits until condition is false again.
//
//go:norace
func (e *execution) block(condition func() bool) {
	self := e.threads[e.current]
	self.blocked = condition
	e.reschedule()
	self.blocked = nil
}

// Program is a set of goroutines on a fresh state and a check to make after all of them finished.
type Program struct {
	Threads []func()
	Check   func() error
}

// Result is what an exploration covered.
type Result struct {
	Schedules  int64  `json:"schedules"`
	Points     int64  `json:"points"`
	Nodes      int64  `json:"nodes"`
	MaxPoints  int    `json:"max_points"`
	Diverged   int64  `json:"diverged"`
	Exhaustive bool   `json:"exhaustive"`
	Failure    string `json:"failure,omitempty"`
	Choices    []int  `json:"choices,omitempty"`
}

//go:norace
func execute(p Program, prefix []int, bound int) *execution {
	e := &execution{prefix: prefix, bound: bound, finished: make(chan struct{}, 1)}

	var all sync.WaitGroup

	for range p.Threads {
		e.threads = append(e.threads, &thread{wake: make(chan struct{}, 1)})
	}

	for i, body := range p.Threads {
		all.Add(1)

		go runThread(e, i, body, &all)
	}

	active = e
	e.current = -1
	first := 0

	if len(p.Threads) > 1 {
		if len(prefix) > 0 {
			first = prefix[0]
		}

		e.choices = append(e.choices, choice{first, len(p.Threads)})
	}

	e.current = first
	runtime.RaceDisable()
	e.threads[first].wake <- struct{}{}
	<-e.finished
	runtime.RaceEnable()

	active = nil

	if e.failure == "" {
		all.Wait() // what the goroutines did happens before the check

		if err := p.Check(); err != nil {
			e.failure = err.Error()
		}
	}

	return e
}

//go:norace
func runThread(e *execution, i int, body func(), all *sync.WaitGroup) {
	runtime.RaceDisable()
	<-e.threads[i].wake
	runtime.RaceEnable()

	finish := func() {
		finishThread(e, i, recover(), all)
	}

	defer finish()

	body()
}

//go:norace
func finishThread(e *execution, i int, p any, all *sync.WaitGroup) {
	if p != nil && e.failure == "" {
		stack := string(debug.Stack())
		if len(stack) > 3000 {
			stack = stack[:3000]
		}

		e.failure = fmt.Sprintf("panic: %v\n%s", p, stack)
	}

	e.threads[i].done = true
	all.Done()

	left := false
	for _, t := range e.threads {
		left = left || !t.done
	}

	if !left {
		e.stop()
		return
	}

	e.reschedule()
}

// Explore runs all schedules with at most bound preemptions.
func Explore(program func() Program, bound int, deadline time.Time) (res Result) {
	var prefix []int

	for {
		races := runtime.RaceErrors()
		e := execute(program(), prefix, bound)
		res.Schedules++
		res.Points += int64(e.points)

		if e.diverged {
			res.Diverged++
		}

		res.Nodes += int64(len(e.choices)-len(prefix)) + 1

		if e.points > res.MaxPoints {
			res.MaxPoints = e.points
		}

		if e.failure == "" && runtime.RaceErrors() != races {
			e.failure = "data race"
		}

		if e.failure != "" {
			res.Failure = e.failure
			for _, c := range e.choices {
				res.Choices = append(res.Choices, c.taken)
			}

			return res
		}

		last := len(e.choices) - 1
		for last >= 0 && e.choices[last].taken+1 >= e.choices[last].options {
			last--
		}

		if last < 0 {
			res.Exhaustive = res.Diverged == 0
			return res
		}

		prefix = prefix[:0:0]
		for _, c := range e.choices[:last] {
			prefix = append(prefix, c.taken)
		}

		prefix = append(prefix, e.choices[last].taken+1)

		if time.Now().After(deadline) {
			return res
		}
	}
}

// Repeat runs one schedule.
func Repeat(program func() Program, bound int, choices []int) (res Result) {
	races := runtime.RaceErrors()
	e := execute(program(), choices, bound)
	res.Schedules = 1
	res.Failure = e.failure

	if e.failure == "" && runtime.RaceErrors() != races {
		res.Failure = "data race"
	}

	return res
}
