//go:build go1.22

// Package mc is the exploration engine shared by all checks: it enumerates finite families of cases completely (in
// parallel), drives implementations in lockstep with reference models over all operation sequences, counts what was
// covered, writes the evidence file and turns failures into replayable violations.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C is the context of one check run.
type C struct {
	Property string
	Level    string
	Tier     string
	Seed     int

	start    time.Time
	deadline time.Time
	end      time.Time // deadline of the whole run
	workers  int
	replay   *replayFile

	mu          sync.Mutex
	evals       atomic.Int64
	nontrivial  atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64
	states      shardedSet
	nodes       atomic.Int64
	cut         atomic.Bool
	outcomes    shardedSet
	samples     []any
	rules       []string
	assumptions []string
	families    []familyReport
	incomplete  []string
	flaky       []string
	known       map[string]string
	knownSeen   map[string]bool
	extra       map[string]any
	replayHit   bool
}

type familyReport struct {
	Name       string  `json:"name"`
	Cases      int64   `json:"cases"`
	Evals      int64   `json:"evaluations"`
	Exhaustive bool    `json:"exhaustive"`
	Seconds    float64 `json:"seconds"`
	Space      string  `json:"space,omitempty"`
}

type replayFile struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	HowTo    string          `json:"how_to_replay"`
}

type shardedSet struct {
	shards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

func (s *shardedSet) add(h uint64) bool {
	sh := &s.shards[h>>58]
	sh.mu.Lock()
	defer sh.mu.Unlock()

	if sh.m == nil {
		sh.m = make(map[uint64]struct{})
	}

	if _, ok := sh.m[h]; ok {
		return false
	}

	sh.m[h] = struct{}{}

	return true
}

func (s *shardedSet) len() (n int) {
	for i := range s.shards {
		s.shards[i].mu.Lock()
		n += len(s.shards[i].m)
		s.shards[i].mu.Unlock()
	}

	return n
}

// Hash fingerprints a string.
func Hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32

	return v
}

// X is the per-case context handed to case runners.
type X struct {
	c     *C
	Case  any
	quiet bool
}

// Quick reports whether the quick tier is running.
func (x *X) Quick() bool { return x.c.Quick() }

// Evals counts n evaluations of which nontrivial ones were distinct and non-trivial.
func (x *X) Evals(n, nontrivial int) {
	if !x.quiet {
		x.c.evals.Add(int64(n))
		x.c.nontrivial.Add(int64(nontrivial))
	}
}

// State records a visited state by its canonical key; returns true if it is new.
func (x *X) State(key string) bool {
	if x.quiet {
		return false
	}

	return x.c.states.add(Hash(key))
}

// Nodes counts n distinct states told apart by the case itself (nodes of its own search tree).
func (x *X) Nodes(n int64) {
	if !x.quiet {
		x.c.nodes.Add(n)
	}
}

// Cut records that the case could not be explored completely.
func (x *X) Cut() {
	if !x.quiet {
		x.c.cut.Store(true)
	}
}

// Replaying reports that the case is run again to confirm or replay a violation.
func (x *X) Replaying() bool { return x.quiet }

// Trans counts transitions executed against the implementation.
func (x *X) Trans(n int) {
	if !x.quiet {
		x.c.transitions.Add(int64(n))
	}
}

// Trace counts complete traces compared with the implementation.
func (x *X) Trace(n int) {
	if !x.quiet {
		x.c.traces.Add(int64(n))
	}
}

// Outcome records a distinct observed outcome.
func (x *X) Outcome(s string) {
	if !x.quiet {
		x.c.outcomes.add(Hash(s))
	}
}

// Expired reports that the run is out of time: a long case should stop.
func (x *X) Expired() bool { return !x.quiet && x.c.Expired() }

// Violation is an error carrying the exact case to replay and a key for known findings.
type Violation struct {
	Replay any
	Key    string
	Msg    string
}

func (v *Violation) Error() string { return v.Msg }

// Failf makes a violation without its own replay (the case is replayed).
func Failf(format string, args ...any) error {
	return &Violation{Msg: fmt.Sprintf(format, args...)}
}

// Quick reports whether the quick tier is running.
func (c *C) Quick() bool { return c.Tier != "thorough" }

// Pick chooses a bound by tier.
func (c *C) Pick(quick, thorough int) int {
	if c.Quick() {
		return quick
	}

	return thorough
}

// Rule documents how cases are made and what is non-trivial.
func (c *C) Rule(s string) { c.rules = append(c.rules, s) }

// Assume documents an assumption.
func (c *C) Assume(s string) { c.assumptions = append(c.assumptions, s) }

// Extra adds a measured figure to the coverage.
func (c *C) Extra(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

// AddExtra adds n to a measured integer figure.
func (c *C) AddExtra(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	old, _ := c.extra[k].(int64)
	c.extra[k] = old + n
}

// Sample keeps a few actual cases for the evidence.
func (c *C) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()

	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
}

// Expired reports that the run is out of time.
func (c *C) Expired() bool { return time.Now().After(c.deadline) }

// Share gives the families run by do one of a number of parts of the time left: changed code having many more
// schedules in one family leaves time for others.
func (c *C) Share(parts int, do func()) {
	now := time.Now()
	c.deadline = now.Add(c.end.Sub(now) / time.Duration(parts))

	do()

	c.deadline = c.end
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}

	return def
}

// Main runs the check of one property.
func Main(bodies map[string]func(c *C), levels map[string]string) {
	property := os.Getenv("VERIF_PROPERTY")
	body, ok := bodies[property]

	if !ok {
		fmt.Fprintf(os.Stderr, "no such property in this harness: %q\n", property)
		os.Exit(2)
	}

	c := &C{
		Property: property, Level: levels[property], Tier: os.Getenv("VERIF_TIER"), Seed: envInt("VERIF_SEED", 1),
		start: time.Now(), workers: runtime.GOMAXPROCS(0),
		known: map[string]string{}, knownSeen: map[string]bool{}, extra: map[string]any{},
	}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}

	limit := 240
	if !c.Quick() {
		limit = 700
	}

	c.deadline = c.start.Add(time.Duration(envInt("VERIF_LIMIT_S", limit)) * time.Second)
	c.end = c.deadline
	c.loadKnown()

	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		data, err := os.ReadFile(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}

		c.replay = new(replayFile)
		if err = json.Unmarshal(data, c.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}

	c.prepared(body)

	if c.replay != nil {
		if !c.replayHit {
			fmt.Fprintf(os.Stderr, "replay: no family %q in %s\n", c.replay.Family, property)
			os.Exit(2)
		}

		fmt.Println("replay: the case passes")
		os.Exit(0)
	}

	c.writeEvidence(0)

	n := int64(c.states.len()) + c.nodes.Load()
	fmt.Printf("OK property=%s tier=%s evaluations=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs exhaustive=%v\n",
		c.Property, c.Tier, c.evals.Load(), n, c.transitions.Load(), c.traces.Load(), c.outcomes.len(),
		time.Since(c.start).Seconds(), len(c.incomplete) == 0)
	os.Exit(0)
}

// preparation is the family of what a check needs of the code under test before it enumerates anything.
const preparation = "preparation"

// prepared runs the check; the code under test failing in what is done between families is a violation, too.
func (c *C) prepared(body func(c *C)) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}

		msg := fmt.Sprintf("what the check starts from can not be made: %v\n%s", p, trimStack(string(debug.Stack())))
		if c.replay == nil {
			c.report(preparation, nil, msg)
		}

		fmt.Printf("replay: %s\nVIOLATION property=%s replay=%s\n", msg, c.Property, os.Getenv("VERIF_REPLAY"))
		os.Exit(1)
	}()

	body(c)

	if c.replay != nil && c.replay.Family == preparation {
		c.replayHit = true
	}
}

func (c *C) loadKnown() {
	data, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return
	}

	for _, line := range strings.Split(string(data), "\n") {
		// known: property=ID key=KEY what fails
		fields := strings.Fields(line)
		if len(fields) < 4 || fields[0] != "known:" || fields[1] != "property="+c.Property {
			continue
		}

		if key, ok := strings.CutPrefix(fields[2], "key="); ok {
			c.known[key] = strings.Join(fields[3:], " ")
		}
	}
}

// Family enumerates a finite family of cases completely and runs each of them.
// gen must yield every case of the family; it stops when yield returns false (out of time or violated).
func Family[S any](c *C, name, space string, gen func(yield func(S) bool), run func(x *X, s S) error) {
	if c.replay != nil {
		if c.replay.Family != name {
			return
		}

		var s S
		if err := json.Unmarshal(c.replay.Case, &s); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}

		c.replayHit = true
		if err := guarded(&X{c: c, Case: s, quiet: true}, s, run); err != nil {
			fmt.Printf("replay: %v\nVIOLATION property=%s replay=%s\n", err, c.Property, os.Getenv("VERIF_REPLAY"))
			os.Exit(1)
		}

		return
	}

	if only := os.Getenv("VERIF_ONLY"); only != "" && !strings.Contains(name, only) {
		return
	}

	if c.Expired() {
		c.note(familyReport{Name: name, Space: space})
		return
	}

	var (
		start   = time.Now()
		evals0  = c.evals.Load()
		cases   atomic.Int64
		feed    = make(chan []S, 4*c.workers)
		wg      sync.WaitGroup
		stopped atomic.Bool
		sampled atomic.Int64
	)

	slots := make([]atomic.Int64, c.workers)
	current := make([]atomic.Value, c.workers)
	done := make(chan struct{})

	go watchdog(c, name, slots, current, done)

	for w := 0; w < c.workers; w++ {
		wg.Add(1)

		go func(w int) {
			defer wg.Done()

			for batch := range feed {
				for _, s := range batch {
					if stopped.Load() {
						break
					}

					x := &X{c: c, Case: s}

					current[w].Store(box{s})
					track(c, name, w, s)
					slots[w].Store(time.Now().UnixNano())
					err := guarded(x, s, run)
					slots[w].Store(0)
					n := cases.Add(1)

					if n&(n-1) == 0 && sampled.Add(1) <= 2 {
						c.Sample(map[string]any{"family": name, "case": s})
					}

					if err != nil {
						c.fail(name, s, err, func(again any) error {
							r, ok := again.(S)
							if !ok {
								r = s
							}

							return guarded(&X{c: c, Case: r, quiet: true}, r, run)
						})
					}
				}
			}
		}(w)
	}

	size := 1
	batch := make([]S, 0, 64)
	complete := true

	gen(func(s S) bool {
		batch = append(batch, s)

		if len(batch) >= size {
			feed <- batch
			batch = make([]S, 0, 64)

			if size < 64 && cases.Load() > 4096 {
				size = 64
			}

			if c.Expired() {
				complete = false
				return false
			}
		}

		return true
	})

	if len(batch) > 0 {
		feed <- batch
	}

	close(feed)
	wg.Wait()
	close(done)

	if c.Expired() || c.cut.Swap(false) {
		complete = false
	}

	c.note(familyReport{
		Name: name, Space: space, Cases: cases.Load(), Evals: c.evals.Load() - evals0, Exhaustive: complete,
		Seconds: time.Since(start).Seconds(),
	})
}

type box struct{ v any }

// track writes the case a worker is going to run where run.py finds it if the case kills the process.
func track(c *C, name string, worker int, cs any) {
	dir := os.Getenv("VERIF_TRACK")
	if dir == "" {
		return
	}

	data, err := json.Marshal(cs)
	if err != nil {
		data = []byte("null")
	}

	path := filepath.Join(dir, fmt.Sprintf("%s.worker%d.json", c.Property, worker))
	out, _ := json.Marshal(replayFile{
		Property: c.Property, Family: name, Case: data, Message: "the case ends the process",
		HowTo: "cd /verif && python3 run.py " + c.Property + " --replay FILE",
	})
	_ = os.WriteFile(path, out, 0o644)
}

func watchdog(c *C, name string, slots []atomic.Int64, current []atomic.Value, done chan struct{}) {
	limit := time.Duration(envInt("VERIF_CASE_LIMIT_S", c.Pick(300, 720))) * time.Second

	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}

		for i := range slots {
			t := slots[i].Load()
			if t != 0 && time.Since(time.Unix(0, t)) > limit {
				b, _ := current[i].Load().(box)
				c.report(name, b.v, fmt.Sprintf("case does not finish within %v", limit))
			}
		}
	}
}

func (c *C) note(f familyReport) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.families = append(c.families, f)

	if !f.Exhaustive {
		c.incomplete = append(c.incomplete, f.Name)
	}
}

func guarded[S any](x *X, s S, run func(x *X, s S) error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = Failf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()

	return run(x, s)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}

	return strings.Join(lines, "\n")
}

var failMu sync.Mutex

func (c *C) fail(name string, cs any, err error, again func(cs any) error) {
	failMu.Lock()
	defer failMu.Unlock()

	msg := err.Error()
	if v, ok := err.(*Violation); ok {
		if v.Replay != nil {
			cs = v.Replay
		}

		if text, known := c.known[v.Key]; known && v.Key != "" {
			if !c.knownSeen[v.Key] {
				c.knownSeen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, text)
			}

			return
		}
	}

	hits := 0

	for i := 0; i < 5; i++ {
		if again(cs) != nil {
			hits++
		}
	}

	if hits == 0 {
		fmt.Printf("note: family %s: not reproducible, not believed: %s\n", name, msg)
		c.mu.Lock()
		c.flaky = append(c.flaky, name+": "+msg)
		c.mu.Unlock()

		return
	}

	c.report(name, cs, fmt.Sprintf("%s (reproduced %d of 5 times)", msg, hits))
}

func (c *C) report(name string, cs any, msg string) {
	data, err := json.Marshal(cs)
	if err != nil {
		data = []byte("null")
	}

	dir := os.Getenv("VERIF_REPLAYS")
	if dir == "" {
		dir = os.TempDir()
	}

	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.Property+"."+strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}

		return '_'
	}, name)+".json")
	out, _ := json.MarshalIndent(replayFile{
		Property: c.Property, Family: name, Case: data, Message: msg,
		HowTo: "cd /verif && python3 run.py " + c.Property + " --replay " + path,
	}, "", " ")
	_ = os.WriteFile(path, append(out, '\n'), 0o644)

	c.writeEvidence(1)
	fmt.Printf("family %s: %s\n", name, msg)

	if len(data) < 2000 {
		fmt.Printf("case: %s\n", data)
	}

	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
	os.Exit(1)
}

func (c *C) writeEvidence(violations int) {
	path := os.Getenv("VERIF_EVIDENCE")
	if path == "" {
		return
	}

	c.mu.Lock()
	defer c.mu.Unlock()

	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}

	cov["samples"] = c.samples
	if c.samples == nil {
		cov["samples"] = []any{}
	}

	cov["families"] = c.families
	cov["distinct_outcomes"] = c.outcomes.len()
	cov["exhaustive"] = len(c.incomplete) == 0

	if len(c.incomplete) > 0 {
		cov["not_completed"] = c.incomplete
	}

	if len(c.flaky) > 0 {
		cov["unreproducible"] = c.flaky
	}

	cov["rule"] = strings.Join(c.rules, " ")
	cov["evaluations"] = c.evals.Load()
	cov["distinct_nontrivial"] = c.nontrivial.Load()

	if c.Level == "model_checking" {
		cov["states"] = int64(c.states.len()) + c.nodes.Load()
		cov["transitions"] = c.transitions.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
	}

	ev := map[string]any{
		"property": c.Property, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": append([]string{}, c.assumptions...), "wall_s": time.Since(c.start).Seconds(), "violations": violations,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	tmp := path + ".tmp"

	if err := os.WriteFile(tmp, append(data, '\n'), 0o644); err == nil {
		_ = os.Rename(tmp, path)
	}
}

// Sorted returns a sorted copy.
func Sorted[T int | uint8 | uint16 | uint32 | string](in []T) []T {
	out := append([]T{}, in...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })

	return out
}
