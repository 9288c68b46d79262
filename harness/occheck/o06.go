//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// together are processes running at the same time on one machine.
type together struct {
	Start string   `json:"start"`
	What  []string `json:"what"`
	Bound int      `json:"bound"`             // preemptions
	Death int      `json:"death,omitempty"`   // operation at which the first process dies
	Root  []int    `json:"root,omitempty"`    // schedules beginning so; nil for all
	Taken []int    `json:"choices,omitempty"` // one schedule: which of the processes able to run goes on
	Files []string `json:"files,omitempty"`   // known to be shared when it began
}

// sharing tells files used by several processes at a time. What is done with the contents of other files needs no
// scheduling point, as it commutes with everything done by other processes. Files are told apart by the process and name
// they are created with.
type sharing struct {
	shared map[string]bool
	grown  bool
	open   map[*world.Node]*opened // in this execution
}

// opened are the numbers of handles by process.
type opened struct{ all, writable map[int]int }

func newSharing() *sharing { return &sharing{shared: map[string]bool{}} }

// use notes that a process uses a file: it must not while others write it, nor write while others have it open.
func (m *sharing) use(n *world.Node, process int, writing bool) {
	if n == nil || n.Dir || m.shared[n.Label] || m.open[n] == nil {
		return
	}

	others := m.open[n].writable
	if writing {
		others = m.open[n].all
	}

	for other, count := range others {
		if other != process && count > 0 {
			m.shared[n.Label], m.grown = true, true
		}
	}
}

func (m *sharing) opened(n *world.Node, process int, writable bool) {
	if m.open[n] == nil {
		m.open[n] = &opened{map[int]int{}, map[int]int{}}
	}

	m.use(n, process, writable)

	m.open[n].all[process]++

	if writable {
		m.open[n].writable[process]++
	}
}

// visible tells whether an operation needs a scheduling point, and notes the use of files.
func (m *sharing) visible(w *world.World, op world.Op, process int) bool {
	switch op.Kind {
	case "body":
		return false // the remote does not change
	case "read", "sync", "sync written":
		m.use(op.Node, process, false)
		return m.shared[op.Node.Label]
	case "write", "truncate":
		if op.Node == nil {
			return true
		}

		m.use(op.Node, process, true)

		return m.shared[op.Node.Label]
	}

	return true // the time a file is written last is visible when it is closed
}

// done notes what an operation with a scheduling point meets when it takes place.
func (m *sharing) done(w *world.World, op world.Op, process int) {
	switch op.Kind {
	case "close":
		m.open[op.Node].all[process]--
	case "close written":
		m.open[op.Node].all[process]--
		m.open[op.Node].writable[process]--
	case "stat", "chtimes", "chmod", "truncate":
		m.use(w.Nodes[op.Path], process, op.Kind != "stat")
	}
}

// doing is one running process.
type doing struct {
	what    string
	w       *world.World
	o       outcome
	content string // loaded
	wake    chan bool
	done    bool
	last    string
}

// pick is a choice between processes.
type pick struct{ taken, options int }

// schedule is one execution under control.
type schedule struct {
	procs   []*doing
	event   chan int // a process came to an operation or ended
	picks   []pick
	current int
	steps   []string
	placed  []placed // compiled indexes in place, one after another
}

// placed is the compiled index in place after a step.
type placed struct {
	data []byte
	none bool
	step int
}

// look notes what is in place.
func (s *schedule) look(w *world.World) {
	data := dataOf(w)

	if n := len(s.placed); n > 0 && s.placed[n-1].none == (data == nil) && bytes.Equal(s.placed[n-1].data, data) {
		return
	}

	s.placed = append(s.placed, placed{append([]byte(nil), data...), data == nil, len(s.steps)})
}

// simultaneously runs the processes with a prefix of choices, then without preemption.
func (k together) simultaneously(w *world.World, m *sharing, prefix []int) *schedule {
	s := &schedule{event: make(chan int), current: -1}
	m.open = map[*world.Node]*opened{}

	for name, n := range w.Nodes {
		n.Label = "before " + name
	}

	for i, what := range k.What {
		p := &doing{what: what, w: w.Process(), wake: make(chan bool)}
		p.w.Name = fmt.Sprint(i)
		p.w.Yield = func(op world.Op) {
			if !m.visible(p.w, op, i) {
				return
			}

			p.last = op.Kind + " " + strings.TrimPrefix(op.Path, dataDir+"/")
			s.event <- i
			<-p.wake
			m.done(p.w, op, i)
		}
		p.w.Opened = func(n *world.Node, writable bool) { m.opened(n, i, writable) }
		s.procs = append(s.procs, p)
	}

	for i, p := range s.procs {
		go func() {
			var plan func(op world.Op) *world.Fault
			if i == 0 && k.Death > 0 {
				plan = (&spec{N: k.Death, Kind: "death", Keep: 1}).plan()
			}

			p.o = process(p.w, plan, p.code())
			p.done = true
			s.event <- i
		}()

		<-s.event // at its first operation (or through)
	}

	s.look(w)

	for preemptions := 0; ; {
		var able []int

		if s.current >= 0 && !s.procs[s.current].done {
			able = append(able, s.current)
		}

		for i, p := range s.procs {
			if !p.done && i != s.current {
				able = append(able, i)
			}
		}

		if len(able) == 0 {
			return s
		}

		options := len(able)
		running := s.current >= 0 && able[0] == s.current

		if running && preemptions >= k.Bound {
			options = 1
		}

		taken := 0
		if len(s.picks) < len(prefix) {
			taken = prefix[len(s.picks)]
		}

		if taken >= options {
			if !m.grown {
				panic("schedule does not repeat")
			}

			taken = 0 // another schedule, but the right ones follow
		}

		if running && taken > 0 {
			preemptions++
		}

		s.picks = append(s.picks, pick{taken, options})
		s.current = able[taken]
		p := s.procs[s.current]
		s.steps = append(s.steps, fmt.Sprintf("%d %s", s.current, p.last))
		p.wake <- true
		<-s.event
		s.look(w)
	}
}

func (p *doing) code() func(l *opencorpora.Loader) error {
	switch p.what {
	case "load":
		return func(l *opencorpora.Loader) error {
			ix, err := l.LoadIndex()
			if err == nil {
				p.content = describe(ix)
			}

			return err
		}
	case "import":
		return func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) }
	case "save 2":
		return func(l *opencorpora.Loader) error { return l.SaveIndex(filled(versions[2].text), compiledFile) }
	case "publish": // another dictionary
		return func(*opencorpora.Loader) error {
			w := world.Current()

			return w.Do("publish", "remote", 0, func(int) error {
				r := w.Ext.(*remote)
				r.Version, r.Modified = published, w.Clock.Truncate(time.Second)

				return nil
			})
		}
	case "check":
		return func(l *opencorpora.Loader) error {
			_, err := l.IsUpdateRequired()
			return err
		}
	default:
		return func(l *opencorpora.Loader) error { return l.Update(p.what == "forced update") }
	}
}

// published is the version the remote gets when something is published.
const published = 2

// machine is what the processes meet.
func (k together) machine() *world.World {
	w := newWorld()
	w.SetDir(dataDir)

	start, left, _ := strings.Cut(k.Start, " + ")
	if count, err := strconv.Atoi(left); err == nil { // incomplete files of processes died before
		for i := range count {
			for _, name := range []string{archiveFile, unpackedFile, compiledFile} {
				w.SetFile(fmt.Sprintf("%s.%d.part", name, i), []byte("left"), w.Clock)
			}
		}
	}

	switch start {
	case "nothing":
	case "up to date":
		w.SetFile(archiveFile, archives[0], w.Clock)
		w.SetFile(unpackedFile, []byte(versions[0].text), w.Clock)
		w.SetFile(compiledFile, compiledOf(0), w.Clock)
	case "outdated":
		old := w.Clock.Add(-10 * time48)
		w.SetFile(archiveFile, archives[1], old)
		w.SetFile(unpackedFile, []byte(versions[1].text), old)
		w.SetFile(compiledFile, compiledOf(1), old)
	case "interrupted": // downloaded only
		w.SetFile(archiveFile, archives[0], w.Clock)
		w.SetFile(unpackedFile, []byte(versions[1].text), w.Clock.Add(-10*time48))
		w.SetFile(compiledFile, compiledOf(1), w.Clock.Add(-10*time48))
	}

	tick(w)

	return w
}

func (k together) check(x *mc.X, m *sharing, prefix []int) (*schedule, error) {
	w := k.machine()
	had := dataOf(w)
	known := mc.Sorted(m.labels())
	s := k.simultaneously(w, m, prefix)
	w.Clock, w.Shared = *w.Shared, nil

	x.Evals(1, 1)
	x.Trace(1)
	x.Trans(len(s.steps))

	allowed := map[string]bool{contents[0]: true}

	if had != nil {
		allowed[content(w, had)] = true
	}

	writers, foreign := 0, false

	for _, p := range s.procs {
		switch p.what {
		case "save 2":
			allowed[contents[2]] = true
		case "import":
			if n := k.machine().Nodes[unpackedFile]; n != nil {
				allowed[expectedOf(string(n.Data))] = true
			}
		case "publish":
			allowed[contents[published]] = true
		}

		switch p.what {
		case "save 2", "import":
			foreign = true

			writers++
		case "update", "forced update":
			writers++
		}
	}

	fail := func(format string, args ...any) error {
		one := k
		one.Taken, one.Root, one.Files = nil, nil, known

		for _, p := range s.picks {
			one.Taken = append(one.Taken, p.taken)
		}

		v := &mc.Violation{Replay: one, Msg: fmt.Sprintf(format, args...) + "\nstart: " + k.Start + "\nschedule:\n" + strings.Join(s.steps, "\n")}
		if writers > 1 {
			v.Key = "two-updates-at-once"
		}

		return v
	}

	for i, in := range s.placed {
		switch {
		case in.none && i > 0:
			return s, fail("the compiled index is gone after step %d", in.step)
		case in.none:
		case !allowed[content(w, in.data)]:
			return s, fail("the compiled index in place after step %d is not complete: %.300s", in.step, content(w, in.data))
		}
	}

	success := false

	for i, p := range s.procs {
		switch {
		case p.o.panic != "":
			return s, fail("process %d (%s) panics: %s", i, p.what, p.o.panic)
		case !p.o.lived:
		case p.what == "load" && had != nil && p.o.err != nil:
			return s, fail("process %d can not load the index though there was one all the time: %v", i, p.o.err)
		case p.what == "load" && p.o.err == nil && !allowed[p.content]:
			return s, fail("process %d loads an index that never was complete:\n%s", i, p.content)
		case p.what != "load" && writers < 2 && p.o.err != nil:
			return s, fail("process %d (%s) fails: %v", i, p.what, p.o.err)
		case strings.Contains(p.what, "update") && p.o.err == nil:
			success = true
		}

		x.Outcome(fmt.Sprint(k.Start, p.what, p.o.err == nil, strings.Count(p.content, "\n")))
	}

	final := "none"
	if data := dataOf(w); data != nil {
		if final = content(w, data); !allowed[final] {
			return s, fail("the compiled index left is not complete: %.300s", final)
		}
	}

	if success && len(allowed) == 1 && final != contents[0] {
		return s, fail("an update reports success, the index left is %.300s", final)
	}

	r := w.Ext.(*remote)
	left := fmt.Sprint(r.Version, foreign, w.Dump())

	if _, known := converging.Load(left); writers > 0 && !known {
		for _, forced := range []bool{true, false} {
			if !forced && foreign {
				continue // what is made by others need not be replaced
			}

			again := clone(w)
			tick(again)

			if o := process(again, nil, func(l *opencorpora.Loader) error { return l.Update(forced) }); o.err != nil || compiled(again) != r.Version {
				return s, fail("an update (forced: %v) after it: %v, index of version %d, remote of version %d", forced, o.err, compiled(again), r.Version)
			}
		}

		converging.Store(left, true)
	}

	x.State(left)

	return s, nil
}

// sharing finds files shared by the processes, most of them: in runs with one preemption.
func (k together) sharing() *sharing {
	id := fmt.Sprint(k.Start, k.What, k.Death)
	if m, ok := sharings.Load(id); ok {
		return m.(*sharing).copy()
	}

	m := newSharing()

	for {
		m.grown = false

		s := k.simultaneously(k.machine(), m, nil)

		for i := 0; i < len(s.picks) && !m.grown; i++ {
			for taken := 1; taken < s.picks[i].options && !m.grown; taken++ {
				k.simultaneously(k.machine(), m, append(make([]int, i), taken))
			}
		}

		if !m.grown {
			sharings.Store(id, m.copy())
			return m
		}
	}
}

var sharings, converging sync.Map

func (m *sharing) labels() (res []string) {
	for label := range m.shared {
		res = append(res, label)
	}

	return res
}

func (m *sharing) copy() *sharing {
	c := newSharing()
	for label := range m.shared {
		c.shared[label] = true
	}

	return c
}

// split divides all schedules by the first choices that are not the default ones.
func (k together) split(levels int) (res []together) {
	s := k.simultaneously(k.machine(), k.sharing(), k.Root)
	from := len(k.Root)
	k.Root = make([]int, len(s.picks))

	for i, p := range s.picks {
		k.Root[i] = p.taken
	}

	res = append(res, k)

	for i := from; i < len(s.picks); i++ {
		for taken := 1; taken < s.picks[i].options; taken++ {
			one := k
			one.Root = append(append([]int{}, k.Root[:i]...), taken)

			if levels > 1 {
				res = append(res, one.split(levels-1)...)
			} else {
				res = append(res, one)
			}
		}
	}

	return res
}

// explore executes all schedules that begin as told.
func (k together) explore(x *mc.X, m *sharing) error {
	prefix := append([]int{}, k.Root...)

	for {
		s, err := k.check(x, m, prefix)
		if err != nil || m.grown {
			return err
		}

		if x.Expired() {
			x.Cut()
			return nil
		}

		last := len(s.picks) - 1
		for ; last >= len(k.Root) && s.picks[last].taken+1 >= s.picks[last].options; last-- {
		}

		if last < len(k.Root) {
			return nil
		}

		prefix = prefix[:0]
		for _, p := range s.picks[:last] {
			prefix = append(prefix, p.taken)
		}

		prefix = append(prefix, s.picks[last].taken+1)
	}
}

func checkTogether(c *mc.C) {
	prepareCompiled()

	c.Rule("Processes run on one simulated machine under a controlled scheduler with a scheduling point before every file and network operation; all schedules up to a number of preemptions are executed (depth first, without sampling). evaluations and traces: schedules; transitions: operations; states: distinct file systems left.")
	c.Assume("File operations are atomic with respect to other processes; the remote changes at most once meanwhile, between any two operations.")

	families := func(name, space string, starts []string, whats [][]string, bound int, dying bool) {
		mc.Family(c, name, space, func(yield func(together) bool) {
			for _, start := range starts {
				for _, what := range whats {
					k := together{Start: start, What: what, Bound: bound}
					deaths := []int{0}

					if dying {
						alone := doing{what: what[0], w: k.machine()}
						list, _ := ops(alone.w, alone.code())
						deaths = nil

						for n := range list {
							deaths = append(deaths, n+1)
						}
					}

					for _, k.Death = range deaths {
						for _, one := range k.split(c.Pick(1, 2)) {
							if !yield(one) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, k together) error {
			m := k.sharing()

			if x.Replaying() && k.Taken != nil {
				m = newSharing()
				for _, label := range k.Files {
					m.shared[label] = true
				}

				_, err := k.check(x, m, k.Taken)

				return err
			}

			for {
				m.grown = false

				if err := k.explore(x, m); err != nil || !m.grown || x.Expired() {
					return err
				}

				k.Root = nil // choices are not the same any more: everything from the beginning
			}
		})
	}

	family := func(name, space string, starts []string, whats [][]string, bound int, dying bool) {
		c.Share(c.Pick(3, 1), func() { families(name, space, starts, whats, bound, dying) })
	}

	starts := []string{"nothing", "up to date", "outdated", "interrupted"}
	loads := [][]string{{"update", "load"}, {"forced update", "load"}, {"save 2", "load"}, {"check", "load"}, {"check", "update"}}
	twice := [][]string{{"update", "update"}, {"update", "forced update"}, {"forced update", "forced update"}, {"save 2", "update"}, {"save 2", "save 2"}}

	family("publishing", "an update or two and a load, while another dictionary is published", starts, [][]string{{"update", "publish"}, {"forced update", "publish"}, {"update", "publish", "load"}, {"update", "update", "publish"}, {"forced update", "update", "publish"}}, c.Pick(2, 3), false)
	family("publishing and dying", "an update dying at every operation and another update, while another dictionary is published", starts, [][]string{{"update", "publish"}, {"update", "update", "publish"}, {"forced update", "update", "publish"}}, 1, true)
	family("update and load", "an update or save and a load", starts, loads, c.Pick(4, 20), false)
	family("import and load", "an import and a load", starts[1:], [][]string{{"import", "load"}, {"import", "import"}}, c.Pick(4, 10), false)
	family("leftovers", "updates and saves meeting incomplete files of processes which died", []string{"nothing + 1", "outdated + 2", "outdated + 5", "interrupted + 9", "outdated + 10", "outdated + 12"}, [][]string{{"update", "load"}, {"update", "update"}, {"save 2", "update"}}, c.Pick(1, 2), false)
	family("three", "two updates and a load, three updates", starts, [][]string{{"update", "update", "load"}, {"forced update", "update", "update"}, {"save 2", "save 2", "save 2"}}, c.Pick(1, 2), false)
	family("dying", "an update or save dying at every operation, with a load or another update", starts, append(loads[:3:3], twice...), c.Pick(1, 2), true)
	if c.Quick() {
		family("publishing between updates", "two updates on an empty machine, while a dictionary is published", starts[:1], [][]string{{"update", "update", "publish"}}, 3, false)
	} else {
		family("publishing and dying alone", "an update dying at every operation, while another dictionary is published", starts, [][]string{{"update", "publish"}, {"forced update", "publish"}}, 3, true)
	}

	family("two updates", "two updates or saves", starts, twice, c.Pick(3, 4), false)
	family("update and two loads", "an update or save and two loads", starts, [][]string{{"update", "load", "load"}, {"forced update", "load", "check"}, {"save 2", "load", "load"}}, c.Pick(3, 5), false)
}
