//go:build go1.22

// Package main checks concurrent use of the index (I07) on instrumented copies of the real packages: a controlled
// scheduler runs every interleaving of statements up to a number of preemptions, with the race detector on.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/internal/zz_verif/sched"
	"github.com/amarin/gomorphy/pkg/dag"
)

// scenario is a program of goroutines.
type scenario struct {
	Kind    string `json:"kind"`            // "lookup" or "create"
	Index   string `json:"index,omitempty"` // fresh, loaded, optimized
	Ops     []int  `json:"ops,omitempty"`
	Prefill int    `json:"prefill,omitempty"`
	Create  []int  `json:"create,omitempty"` // creations of every goroutine
	Loaded  bool   `json:"loaded,omitempty"` // list is a loaded one
	Bound   int    `json:"bound"`
	Choices []int  `json:"choices,omitempty"` // schedule to repeat
	Repeat  bool   `json:"repeat,omitempty"`
}

func main() {
	if text := os.Getenv("VERIF_CONC_CASE"); text != "" {
		child(text)
		return
	}

	mc.Main(map[string]func(c *mc.C){"I07": check}, map[string]string{"I07": "model_checking"})
}

// word is a word of the index with its tag sets.
type word struct {
	text string
	sets [][]dag.TagName
}

var words = []word{
	{"ab", [][]dag.TagName{{"NOUN"}, {"NOUN", "masc"}}},
	{"abc", [][]dag.TagName{{"masc"}}},
	{"b", nil},
	{"ад", [][]dag.TagName{{"masc", "NOUN"}}},
	{"ак", [][]dag.TagName{{"NOUN", "masc"}}},
}

func build(kind string) *index.Index {
	ix := index.New()
	ix.TagID("POST", "")
	ix.TagID("NOUN", "POST")
	ix.TagID("masc", "NOUN")

	for _, w := range words {
		node, err := ix.AddString(w.text)
		if err != nil {
			panic(err)
		}

		for _, s := range w.sets {
			if err = node.AddTagSet(s...); err != nil {
				panic(err)
			}
		}
	}

	switch kind {
	case "optimized":
		ix.Optimize()
	case "loaded":
		data := save(ix)
		ix = index.New()

		if err := ix.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader([]byte(data)))); err != nil {
			panic(err)
		}
	}

	return ix
}

func save(ix *index.Index) string {
	var buf bytes.Buffer
	if err := ix.BinaryWriteTo(binutils.NewBinaryWriter(&buf)); err != nil {
		return "error " + err.Error()
	}

	return buf.String()
}

func sets(node dag.Node) string {
	var res []string

	for _, s := range node.TagSets() {
		var tags []string
		for _, t := range s {
			tags = append(tags, fmt.Sprintf("%v<%v", t.Name, t.Parent))
		}

		sort.Strings(tags)
		res = append(res, "{"+strings.Join(tags, " ")+"}")
	}

	return strings.Join(res, " ")
}

func describe(node dag.Node, err error) string {
	if err != nil {
		return "error " + err.Error()
	}

	return fmt.Sprintf("%s %s %s", node.Word(), node.String(), sets(node))
}

func describeMap(m dag.NodeMap) string {
	var res []string

	for letter, node := range m {
		res = append(res, fmt.Sprintf("%c=%s", letter, describe(node, nil)))
	}

	sort.Strings(res)

	return strings.Join(res, "; ")
}

type lookup struct {
	name string
	run  func(ix *index.Index, shared dag.Node) string
}

var lookups = []lookup{
	{"word", func(ix *index.Index, _ dag.Node) string { return describe(ix.FetchString("ab")) }},
	{"unknown word below a leaf", func(ix *index.Index, _ dag.Node) string { return describe(ix.FetchString("abcd")) }},
	{"unknown root letter", func(ix *index.Index, _ dag.Node) string { return describe(ix.FetchRunes([]rune("zz"))) }},
	{"fetch from node", func(ix *index.Index, _ dag.Node) string {
		node, err := ix.FetchItemFromParent(1, []rune("bc"))
		if err != nil {
			return "error"
		}

		return fmt.Sprintf("%d %v %s", node.Id(), node.Item(), describe(node, nil))
	}},
	{"fetch from unknown node", func(ix *index.Index, _ dag.Node) string {
		_, err := ix.FetchItemFromParent(77, []rune("b"))
		return fmt.Sprint(err != nil)
	}},
	{"get", func(ix *index.Index, _ dag.Node) string { return describe(ix.Get(3)) }},
	{"get unknown", func(ix *index.Index, _ dag.Node) string {
		_, err := ix.Get(77)
		return fmt.Sprint(err != nil)
	}},
	{"children of root", func(ix *index.Index, _ dag.Node) string { return describeMap(ix.Children()) }},
	{"children of nodes", func(ix *index.Index, _ dag.Node) string {
		return describeMap(ix.GetChildrenMap(1)) + "|" + describeMap(ix.GetChildrenMap(3)) + "|" + describeMap(ix.GetChildrenMap(99))
	}},
	{"counts", func(ix *index.Index, _ dag.Node) string { return fmt.Sprint(ix.WordsCount(), ix.NodesCount()) }},
	{"tags", func(ix *index.Index, _ dag.Node) string {
		tags := ix.Tags()
		res := fmt.Sprint(tags.Len())

		for id := 0; id < tags.Len()+1; id++ {
			tag, ok := tags.Get(dag.TagID(id))
			res += fmt.Sprint(tag, ok)
		}

		id, ok := tags.Find("masc")

		return res + fmt.Sprint(id, ok)
	}},
	{"tag sets", func(ix *index.Index, _ dag.Node) string {
		all := ix.TagSetIndex()
		res := fmt.Sprint(all.Size())

		for _, id := range all.TableIDs() {
			s, ok := all.Get(id)
			res += fmt.Sprint(s, ok)

			tags, err := ix.TagSet(s)
			res += fmt.Sprint(tags, err)
		}

		return res
	}},
	{"variants", func(ix *index.Index, _ dag.Node) string {
		res := ""

		for id := index.VariantID(0); id < 7; id++ {
			list, err := ix.Variants(id)
			res += fmt.Sprint(list, err != nil)
		}

		return res
	}},
	{"save", func(ix *index.Index, _ dag.Node) string { return save(ix) }},
	{"shared node", func(_ *index.Index, shared dag.Node) string { return describe(shared, nil) }},
}

func lookupProgram(s scenario) func() sched.Program {
	sequential := func() []string {
		ix := build(s.Index)
		shared, _ := ix.FetchString("abc")

		var res []string
		for _, op := range s.Ops {
			res = append(res, lookups[op].run(ix, shared))
		}

		return append(res, save(ix))
	}
	expected := sequential()

	return func() sched.Program {
		ix := build(s.Index)
		shared, _ := ix.FetchString("abc")
		got := make([]string, len(s.Ops))

		var p sched.Program

		for i, op := range s.Ops {
			i, op := i, op
			p.Threads = append(p.Threads, func() { got[i] = lookups[op].run(ix, shared) })
		}

		p.Check = func() error {
			for i, op := range s.Ops {
				if got[i] != expected[i] {
					return mc.Failf("lookup %q concurrent with others answers %q instead of %q", lookups[op].name, got[i], expected[i])
				}
			}

			if after := save(ix); after != expected[len(s.Ops)] {
				return mc.Failf("index after concurrent lookups saves to %q instead of %q", after, expected[len(s.Ops)])
			}

			return nil
		}

		return p
	}
}

func createProgram(s scenario) func() sched.Program {
	return func() sched.Program {
		items := index.NewItems()
		for i := 0; i < s.Prefill; i++ {
			items.NewChild(dag.ID(i), rune('a'+i))
		}

		if s.Loaded {
			var buf bytes.Buffer
			if err := items.BinaryWriteTo(binutils.NewBinaryWriter(&buf)); err != nil {
				panic(err)
			}

			items = index.NewItems()
			if err := items.BinaryReadFrom(binutils.NewBinaryReader(&buf)); err != nil {
				panic(err)
			}
		}

		got := make([][]index.Item, len(s.Create))

		var p sched.Program

		for i, count := range s.Create {
			i, count := i, count
			got[i] = make([]index.Item, 0, count)
			p.Threads = append(p.Threads, func() {
				for n := 0; n < count; n++ {
					got[i] = append(got[i], items.NewChild(dag.ID(100+i), rune('A'+10*i+n)))
				}
			})
		}

		p.Check = func() error { return checkCreated(s, items, got) }

		return p
	}
}

func checkCreated(s scenario, items *index.Items, got [][]index.Item) error {
	total := 0
	used := map[dag.ID]bool{}

	for i, list := range got {
		last := dag.ID(0)

		for n, item := range list {
			total++

			if item.Parent != dag.ID(100+i) || item.Letter != rune('A'+10*i+n) || item.Variants != 0 {
				return mc.Failf("creating node %d of goroutine %d returned %+v", n, i, item)
			}

			if used[item.ID] || item.ID <= last {
				return mc.Failf("id %d given twice or out of order", item.ID)
			}

			used[item.ID] = true
			last = item.ID

			stored := items.Get(item.ID)
			if stored == nil || *stored != item {
				return mc.Failf("node %+v is stored as %+v", item, stored)
			}
		}
	}

	for id := s.Prefill + 1; id <= s.Prefill+total; id++ {
		if !used[dag.ID(id)] {
			return mc.Failf("id %d was not given, %v were", id, used)
		}
	}

	if int(items.NextID()) != s.Prefill+total+1 {
		return mc.Failf("next id after all is %d instead of %d", items.NextID(), s.Prefill+total+1)
	}

	for i := 0; i < s.Prefill; i++ {
		item := items.Get(dag.ID(i + 1))
		if item == nil || item.ID != dag.ID(i+1) || item.Parent != dag.ID(i) || item.Letter != rune('a'+i) {
			return mc.Failf("node %d created before became %+v", i+1, item)
		}
	}

	return nil
}

// child explores one scenario in its own process.
func child(text string) {
	runtime.GOMAXPROCS(1)

	var s scenario
	if err := json.Unmarshal([]byte(text), &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}

	program := createProgram(s)
	if s.Kind == "lookup" {
		program = lookupProgram(s)
	}

	var res sched.Result

	if s.Repeat {
		res = sched.Repeat(program, s.Bound, s.Choices)
	} else {
		limit := 100 * time.Second
		if v, err := time.ParseDuration(os.Getenv("VERIF_CONC_LIMIT")); err == nil {
			limit = v
		}

		res = sched.Explore(program, s.Bound, time.Now().Add(limit))
	}

	out, _ := json.Marshal(res)
	fmt.Printf("RESULT %s\n", out)
	os.Exit(0)
}

func runScenario(x *mc.X, s scenario) error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "race")
	if err != nil {
		panic(err)
	}

	defer func() { _ = os.RemoveAll(dir) }()

	text, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CONC_CASE="+string(text),
		"GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"))

	out, err := cmd.Output()

	var res sched.Result

	_, line, found := strings.Cut(string(out), "RESULT ")
	if !found || json.Unmarshal([]byte(line), &res) != nil {
		stderr := ""
		if e, ok := err.(*exec.ExitError); ok {
			stderr = string(e.Stderr)
			if len(stderr) > 3000 {
				stderr = stderr[:3000]
			}
		}

		return mc.Failf("goroutines end the process: %v\n%s", err, stderr)
	}

	x.Evals(int(res.Schedules), int(res.Schedules))
	x.Nodes(res.Nodes)
	x.Trans(int(res.Points))
	x.Trace(int(res.Schedules))

	if res.Failure == "" {
		if !res.Exhaustive && !s.Repeat {
			x.Cut()
		}

		return nil
	}

	if res.Failure == "data race" {
		files, _ := filepath.Glob(filepath.Join(dir, "race*"))
		for _, f := range files {
			if report, err := os.ReadFile(f); err == nil {
				if len(report) > 2500 {
					report = report[:2500]
				}

				res.Failure += "\n" + string(report)
			}
		}
	}

	again := s
	again.Repeat, again.Choices = true, res.Choices

	if s.Repeat {
		again = s
	}

	return &mc.Violation{Replay: again, Msg: res.Failure}
}

func check(c *mc.C) {
	c.Rule("Every interleaving at statement boundaries of the real code (instrumented copy, controlled scheduler) of 2 or 3 goroutines with at most the stated number of preemptions; answers equal those of the same lookup alone, node lists are consecutive and complete, and the race detector, which sees only the synchronization of the code under test, reports nothing. evaluations and traces: schedules; states: nodes of the schedule tree; transitions: scheduling points passed.")
	c.Assume("Statements are the units of interleaving; effects inside a statement are covered by the race detector. Library code outside the repository is not interleaved.")

	bound := c.Pick(1, 2)
	mc.Family(c, "pairs", "every pair of lookups (with itself too) on a fresh, loaded and optimized index", func(yield func(scenario) bool) {
		for _, kind := range []string{"fresh", "loaded", "optimized"} {
			for a := range lookups {
				for b := a; b < len(lookups); b++ {
					if !yield(scenario{Kind: "lookup", Index: kind, Ops: []int{a, b}, Bound: bound}) {
						return
					}
				}
			}
		}
	}, runScenario)

	mc.Family(c, "create", "2 or 3 goroutines creating nodes in a list of every length up to the bound, new or loaded", func(yield func(scenario) bool) {
		type plan struct {
			create  []int
			bound   int
			prefill int
		}

		plans := []plan{{[]int{1, 1}, 3, 48}, {[]int{1, 1}, 6, 8}, {[]int{2, 1}, 3, 17}, {[]int{1, 1, 1}, 2, 17}}
		if !c.Quick() {
			plans = []plan{{[]int{1, 1}, 99, 17}, {[]int{1, 1}, 4, 80}, {[]int{2, 1}, 4, 24}, {[]int{2, 2}, 3, 24}, {[]int{3, 1}, 3, 24}, {[]int{1, 1, 1}, 3, 24}, {[]int{2, 1, 1}, 2, 24}}
		}

		for _, p := range plans {
			for prefill := 0; prefill <= p.prefill; prefill++ {
				for _, loaded := range []bool{false, true} {
					if !yield(scenario{Kind: "create", Prefill: prefill, Create: p.create, Loaded: loaded, Bound: p.bound}) {
						return
					}
				}
			}
		}
	}, runScenario)

	mc.Family(c, "triples", "triples of different lookups on a fresh and a loaded index", func(yield func(scenario) bool) {
		for _, kind := range []string{"fresh", "loaded"} {
			for a := range lookups {
				for b := a + 1; b < len(lookups); b++ {
					for d := b + 1; d < len(lookups); d++ {
						if c.Quick() && (a+b+d)%5 != 0 {
							continue
						}

						if !yield(scenario{Kind: "lookup", Index: kind, Ops: []int{a, b, d}, Bound: 1}) {
							return
						}
					}
				}
			}
		}
	}, runScenario)
}
