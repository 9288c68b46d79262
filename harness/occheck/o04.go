//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// step is one update run.
type step struct {
	Change bool  `json:"change,omitempty"` // remote gets its next version before
	Force  bool  `json:"force,omitempty"`
	Down   bool  `json:"down,omitempty"` // remote is not reachable
	Fault  *spec `json:"fault,omitempty"`
}

// history is a start and the update runs made since.
type history struct {
	Start string `json:"start"`
	Steps []step `json:"steps,omitempty"`
	Next  *step  `json:"next,omitempty"` // class of steps explored: its faults are enumerated unless it has one
}

var starts = []string{"nothing", "coarse clock", "deployed index"}

func begin(start string) *world.World {
	w := newWorld()

	switch start {
	case "coarse clock":
		w.Tick = 0
	case "deployed index": // compiled elsewhere, of another version
		other := newWorld()
		other.Ext.(*remote).Version = 2

		if o := process(other, nil, func(l *opencorpora.Loader) error { return l.Update(false) }); o.err != nil {
			panic(o.err)
		}

		w.SetFile(compiledFile, other.Nodes[compiledFile].Data, w.Clock)
	}

	tick(w)

	return w
}

func (s step) prepare(w *world.World) {
	r := w.Ext.(*remote)
	r.Down = s.Down

	if s.Change {
		r.Version = (r.Version + 1) % len(archives)
		r.Modified = w.Clock.Add(-30 * time.Minute).Truncate(time.Second)
	}
}

func (s step) code(l *opencorpora.Loader) error { return l.Update(s.Force) }

// source is the version of the newest dictionary the machine has: the archive or what is left of an archive removed.
func source(w *world.World) int {
	have := archived(w)

	if n, ok := w.Nodes[unpackedFile]; ok && have == -1 {
		have = -2

		for i, v := range versions {
			if v.text == string(n.Data) {
				have = i
			}
		}
	}

	return have
}

// apply makes one step and checks what must hold after every step.
func (s step) apply(w *world.World, seen map[int]bool) (outcome, error) {
	s.prepare(w)
	r := w.Ext.(*remote)
	seen[r.Version] = true
	before := archived(w)
	o := process(w, s.Fault.plan(), s.code)

	if o.panic != "" {
		return o, mc.Failf("update panics: %s", o.panic)
	}

	version := compiled(w)
	if version == -2 || version >= 0 && !seen[version] {
		return o, mc.Failf("after the run there is a compiled index which is none of the dictionary versions seen (update says %v)", o.err)
	}

	if o.lived && o.err == nil {
		have := source(w)
		if have < 0 || version != have {
			return o, mc.Failf("update reports success, the compiled index is of version %d, the downloaded dictionary of version %d (-1: none, -2: damaged)", version, have)
		}

		if !s.Down && s.Fault == nil && version != r.Version {
			return o, mc.Failf("update reports success without a fault, the compiled index is of version %d, the remote of version %d", version, r.Version)
		}
	}

	if s.Fault == nil && !s.Down && o.err != nil {
		return o, mc.Failf("update on a healthy machine with a healthy remote fails: %v", o.err)
	}

	if s.Fault == nil && s.Down && s.Force && before >= 0 {
		if o.err != nil {
			return o, mc.Failf("forced update without the remote fails although a downloaded dictionary is there: %v", o.err)
		}

		if version != before {
			return o, mc.Failf("forced update without the remote makes an index of version %d of a downloaded dictionary of version %d", version, before)
		}
	}

	tick(w)

	return o, nil
}

// key is the state of a machine as far as further runs can tell, exactly or by classes of file contents.
func key(w *world.World, exact bool) string {
	r := w.Ext.(*remote)
	times := []time.Time{r.Modified}

	var names []string

	for name, n := range w.Nodes {
		if !n.Dir {
			names = append(names, name)

			if exact || !strings.HasSuffix(name, ".part") {
				times = append(times, n.MTime)
			}
		}
	}

	sort.Strings(names)
	sort.Slice(times, func(i, j int) bool { return times[i].Before(times[j]) })

	rank := func(t time.Time) int {
		res := 0

		for i := range times {
			if i > 0 && times[i].After(times[i-1]) {
				res++
			}

			if times[i].Equal(t) {
				return res
			}
		}

		return -1
	}

	var b strings.Builder

	fmt.Fprintf(&b, "remote %d@%d tick %v", r.Version, rank(r.Modified), w.Tick)

	for _, name := range names {
		n := w.Nodes[name]
		if !exact && strings.HasSuffix(name, ".part") {
			fmt.Fprintf(&b, "|%s", path.Base(name)) // left behind

			continue
		}

		fmt.Fprintf(&b, "|%s@%d ", path.Base(name), rank(n.MTime))

		switch {
		case exact:
			b.Write(n.Data)
		case name == compiledFile:
			fmt.Fprint(&b, compiled(w))
		case name == archiveFile:
			fmt.Fprint(&b, archived(w))
		default:
			fmt.Fprint(&b, class(n.Data))
		}
	}

	return b.String()
}

func class(data []byte) string {
	if len(data) == 0 {
		return "empty"
	}

	for i, v := range versions {
		if string(data) == v.text || string(data) == string(archives[i]) {
			return fmt.Sprint(i)
		}
	}

	return "other"
}

// point is a state found with the history leading to it.
type point struct {
	w    *world.World
	seen map[int]bool
	h    history
}

func copySeen(seen map[int]bool) map[int]bool {
	res := map[int]bool{}
	for k, v := range seen {
		res[k] = v
	}

	return res
}

// replayTo makes the steps of a history.
func replayTo(h history) (point, error) {
	p := point{w: begin(h.Start), seen: map[int]bool{}, h: h}
	if h.Start == "deployed index" {
		p.seen[2] = true
	}

	for _, s := range h.Steps {
		if _, err := s.apply(p.w, p.seen); err != nil {
			return p, err
		}
	}

	return p, nil
}

// converges checks what must hold in every state: what fault-free runs make of it.
func converges(x *mc.X, p point) error {
	for _, s := range []step{
		{}, {Force: true}, {Change: true}, {Change: true, Force: true}, {Down: true, Force: true}, {Down: true},
	} {
		w := clone(p.w)
		s := s

		x.Evals(1, 1)
		x.Trans(1)
		x.Trace(1)

		if _, err := s.apply(w, copySeen(p.seen)); err != nil {
			h := p.h
			h.Next = &s

			return &mc.Violation{Replay: h, Msg: err.Error() + fmt.Sprintf("\nhistory: %s\nstate:\n%s", describeHistory(h), p.w.Dump())}
		}

		if s.Down && !s.Force {
			continue
		}

		// repeated runs change nothing any more
		again := step{}

		if _, err := again.apply(w, map[int]bool{0: true, 1: true, 2: true}); err != nil {
			h := p.h
			h.Steps = append(append([]step{}, h.Steps...), s)
			h.Next = &again

			return &mc.Violation{Replay: h, Msg: err.Error() + "\nhistory: " + describeHistory(h)}
		}
	}

	return nil
}

func describeHistory(h history) string {
	var parts []string

	steps := h.Steps
	if h.Next != nil {
		steps = append(append([]step{}, steps...), *h.Next)
	}

	for _, s := range steps {
		text := "update"
		if s.Force {
			text = "forced update"
		}

		if s.Change {
			text = "remote changes, " + text
		}

		if s.Down {
			text += " without remote"
		}

		if s.Fault != nil {
			text += fmt.Sprintf(" with %s at %s (operation %d, %d bytes)", s.Fault.Kind, s.Fault.On, s.Fault.N, s.Fault.Keep)
		}

		parts = append(parts, text)
	}

	return h.Start + "; " + strings.Join(parts, "; ")
}

// found collects new states.
type found struct {
	mu     sync.Mutex
	exact  map[string]bool
	coarse map[string]bool
	next   []point // states to continue from
	all    bool    // continue from every exact state, not from one of every class
}

func (f *found) add(x *mc.X, p point) (fresh bool) {
	exact := key(p.w, true)

	f.mu.Lock()
	known := f.exact[exact]
	f.exact[exact] = true
	f.mu.Unlock()

	if known {
		return false
	}

	x.State(exact)

	coarse := key(p.w, false)

	f.mu.Lock()
	defer f.mu.Unlock()

	if f.all || !f.coarse[coarse] {
		f.coarse[coarse] = true
		f.next = append(f.next, p)
	}

	return true
}

// explore enumerates all faults of a step class from a state.
func explore(x *mc.X, f *found, p point, s step, every bool) error {
	c := clone(p.w)
	s.prepare(c)

	list, _ := ops(c, s.code)
	runs := []step{s}

	for _, op := range list {
		for _, fault := range faults(op, every && op.Kind == "body") {
			fault := fault
			one := s
			one.Fault = &fault
			runs = append(runs, one)
		}
	}

	for _, run := range runs {
		if x.Expired() {
			break
		}

		w := clone(p.w)
		seen := copySeen(p.seen)
		run := run
		o, err := run.apply(w, seen)

		x.Evals(1, 1)
		x.Trans(1)
		x.Trace(1)
		x.Outcome(fmt.Sprint(run.Fault != nil, o.lived, o.err == nil, key(w, false)))

		h := history{Start: p.h.Start, Steps: append(append([]step{}, p.h.Steps...), run)}

		if err != nil {
			replay := history{Start: p.h.Start, Steps: p.h.Steps, Next: &run}
			return &mc.Violation{Replay: replay, Msg: err.Error() + "\nhistory: " + describeHistory(replay)}
		}

		next := point{w, seen, h}
		if f.add(x, next) {
			if err = converges(x, next); err != nil {
				return err
			}
		}
	}

	return nil
}

func checkHistories(c *mc.C) {
	c.Rule("The implementation is the transition relation: from every state reached (files, relative times, remote version), every run of every mode with every fault of every operation is made, all new states are checked for convergence: healthy runs in both modes, with and without a remote change, and forced runs without remote. evaluations, transitions and traces: update runs of the real loader; states: distinct machine states.")
	c.Assume("One fault per run. A process dies between or within file operations; what it wrote before is kept (no power loss). The remote does not change within a run, runs are an hour apart. Silently cut answers are detected by the archive format.")

	depth := c.Pick(2, 4)
	f := &found{exact: map[string]bool{}, coarse: map[string]bool{}}

	var level []point

	for _, start := range starts {
		p, _ := replayTo(history{Start: start})
		level = append(level, p)
	}

	classes := []step{{}, {Force: true}, {Change: true}, {Change: true, Force: true}, {Down: true, Force: true}}

	for d := 1; d <= depth; d++ {
		f.mu.Lock()
		f.next = nil
		f.all = d == 1 && !c.Quick() // second runs start in every state in thorough
		f.mu.Unlock()

		index := map[string]point{}
		for _, p := range level {
			index[id(p.h)] = p
		}

		mc.Family(c, fmt.Sprintf("run %d", d), fmt.Sprintf("run %d: every mode and fault from every state (class of states) found before", d),
			func(yield func(history) bool) {
				for _, p := range level {
					for i := range classes {
						h := p.h
						h.Next = &classes[i]

						if !yield(h) {
							return
						}
					}
				}
			}, func(x *mc.X, h history) error {
				p, ok := index[id(h)]
				if !ok || x.Replaying() {
					var err error
					if p, err = replayTo(history{Start: h.Start, Steps: h.Steps}); err != nil {
						return err
					}
				}

				if x.Replaying() {
					return again(x, p, *h.Next)
				}

				return explore(x, f, p, *h.Next, d == 1)
			})

		level = f.next
	}

	c.Extra("classes_of_states", len(f.coarse))
}

// id identifies the steps already made.
func id(h history) string {
	text, _ := json.Marshal(history{Start: h.Start, Steps: h.Steps})
	return string(text)
}

// again repeats one history: its last step, and if that passes, convergence from there.
func again(x *mc.X, p point, s step) error {
	w := clone(p.w)
	seen := copySeen(p.seen)

	if _, err := s.apply(w, seen); err != nil {
		return err
	}

	return converges(x, point{w, seen, history{Start: p.h.Start, Steps: append(append([]step{}, p.h.Steps...), s)}})
}
