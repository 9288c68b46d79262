//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/storage"
)

func reloadOp(into string) op {
	return op{"save and load (" + into + ")", func(w *world) error { return w.saveAndLoad(into) }}
}

// sameAsTwin compares an index that was saved and loaded with one having the same history otherwise.
func (w *world) sameAsTwin() error {
	if a, b := dump(w.ix, true), dump(w.twin, true); a != b {
		return mc.Failf("loaded index differs from the one that was never saved: %s", firstDifference(a, b))
	}

	a, err := save(w.ix)
	if err != nil {
		return mc.Failf("saving: %v", err)
	}

	b, err := save(w.twin)
	if err != nil || !bytes.Equal(a, b) {
		return mc.Failf("loaded index is saved as %q, the one that was never saved as %q, %v", a, b, err)
	}

	return nil
}

// described is an index built from a description.
type described struct {
	Tags        int    `json:"tags"`        // registered tags
	Sets        int    `json:"sets"`        // different tag sets of the given size
	Size        int    `json:"size"`        // tags in a set
	Collections int    `json:"collections"` // words with different numbers of sets: word i has 1+i%Depth sets
	Depth       int    `json:"depth"`
	Nodes       int    `json:"nodes"` // additional nodes without tag sets
	Into        string `json:"into"`
}

func (p described) build(w *world) error {
	for i := 0; i < p.Tags; i++ {
		parent := ""
		if i > 0 {
			parent = tagName(i / 2)
		}

		if err := w.register(tagName(i), parent); err != nil {
			return err
		}
	}

	var sets []set

	if p.Sets > 0 {
		all := make([]string, p.Tags)
		for i := range all {
			all[i] = tagName(i)
		}

		mc.Combinations(all, p.Size, func(v []string) bool {
			sets = append(sets, v)
			return len(sets) < p.Sets
		})
	}

	for i := 0; i < p.Collections; i++ {
		word := fmt.Sprintf("c%03x", i)

		for d := 0; d <= i%p.Depth && d < len(sets); d++ {
			if err := w.attribute(word, sets[(i/p.Depth+d)%len(sets)], "add"); err != nil {
				return err
			}
		}
	}

	for i, tags := range sets {
		if p.Collections == 0 {
			if err := w.attribute(fmt.Sprintf("s%x", i), tags, "add"); err != nil {
				return err
			}
		}
	}

	for i := 0; i < p.Nodes; i++ {
		word := string([]rune{'n', rune(0x3400 + i%20000), rune(0x3400 + i/20000)}[:2+min(1, i/20000)])
		if err := w.add(word, "runes"); err != nil {
			return err
		}

		if i > 60000 && i%1000 == 0 { // parents and words with large ids
			if err := w.add(word+"zy", "string"); err != nil {
				return err
			}

			of := set{tagName(i / 1000 % 3)}
			if i/1000%3 == 2 {
				of = set{tagName(0), tagName(1)}
			}

			if err := w.attribute(word+"zyx", of, "add"); err != nil {
				return err
			}
		}

		if i > 65400 && i < 65600 { // words around the limit of 16 bits
			if err := w.attribute(word, set{tagName(i % 2), tagName(1 - i%2)}[:1+i/4%2], "add"); err != nil {
				return err
			}
		}
	}

	return nil
}

func descriptions(c *mc.C) (res []described) {
	for n := 0; n <= 255; n++ {
		res = append(res, described{Tags: n})
	}

	for size := 1; size <= 255; size++ {
		res = append(res, described{Tags: 255, Sets: 1 + size%3, Size: size})
	}

	for n := 1; n <= 300; n++ {
		res = append(res, described{Tags: 26, Sets: n, Size: 2})
	}

	for depth := 1; depth <= 255; depth++ {
		res = append(res, described{Tags: 24, Sets: 260, Size: 2, Collections: depth, Depth: depth})
	}

	for n := 0; n <= 300; n++ {
		res = append(res, described{Tags: 3, Sets: 2, Size: 2, Nodes: n})
	}

	for n := 254; n <= 260; n++ {
		res = append(res, described{Tags: 24, Sets: 270, Size: 2, Collections: n, Depth: 1})
		res = append(res, described{Tags: 24, Sets: 270, Size: 2, Collections: 2 * n, Depth: 2})
	}

	res = append(res, described{Tags: 200, Sets: 15000, Size: 2}, described{Tags: 2, Sets: 1, Size: 2, Nodes: 70000})

	if !c.Quick() {
		res = append(res, described{Tags: 255, Sets: 65535, Size: 3}, described{Tags: 255, Sets: 32769, Size: 3},
			described{Tags: 2, Sets: 1, Size: 2, Nodes: 1000000})
	}

	return res
}

func checkReload(c *mc.C) {
	c.Assume("tag names are 4 bytes long (other names are refused when saving, the empty one is written as ----, see D01)")
	c.Rule("Two indexes are driven in lockstep through the same operations, one of them being saved and loaded (into a new index, one holding other data, one " +
		"loaded and used before, itself) at every possible set of points: all operation sequences up to a depth, all patterns of attributions of small tag sets " +
		"with loading after every step, sweeps over every tag, tag set, combination and node count. Compared are all answers, identifiers and image bytes, after " +
		"each step or only at the end.")

	check := func(w *world) error { return w.sameAsTwin() }
	bothOptimize := op{"optimize", func(w *world) error {
		w.ix.Optimize()
		w.twin.Optimize()
		return nil
	}}

	ops := []op{
		addOp("ab", "string"), addOp("aя", "runes"), extendOp("a", "b"), extendOp("ab", "b"), attrOp("ab", "add", "AAAA"), attrOp("ab", "fetch", "BBBB", "AAAA"),
		attrOp("a", "add", "BBBB"), tagOp("CCCC", "BBBB"), attrOp("b", "add", "CCCC"), bothOptimize, reloadOp("new"), reloadOp("dirty"), reloadOp("itself"), reloadOp("older"), reloadOp("mirror"),
	}
	mc.Sequences(c, prepared(lockstep("reload.swept", ops, true, true, check)), c.Pick(4, 5))
	mc.Sequences(c, prepared(lockstep("reload.final", ops, true, false, check)), c.Pick(4, 5))

	few := []op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "add", "BBBB"), attrOp("a", "add", "BBBB", "AAAA"), addOp("aba", "string"), reloadOp("new"), reloadOp("dirty"),
	}
	mc.Sequences(c, prepared(lockstep("reload.few", few, true, false, check)), c.Pick(6, 8))
	mc.Sequences(c, lockstep("reload.empty", []op{tagOp("AAAA", ""), tagOp("----", "BBBB"), addOp("a", "string"), attrOp("b", "add", "AAAA"), reloadOp("new"), reloadOp("dirty")}, true, true, check), c.Pick(6, 7))

	again := append([]op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "add", "BBBB"), attrOp("b", "add", "BBBB"), attrOp("a", "add", "BBBB", "AAAA"), extendOp("a", "bb"), extendOp("b", "ab"),
		tagOp("CCCC", "AAAA"), bothOptimize,
	}, keepOps...)
	mc.Sequences(c, prepared(lockstep("restored.swept", again, true, true, func(w *world) error {
		if err := w.sameAsTwin(); err != nil {
			return err
		}

		return w.checkWords([]string{"ab", "ba", "abb", "a", "b", "q"})
	})), c.Pick(5, 6))

	mc.Family(c, "sizes", "indexes with every number of tags 0..255, of sets of one size, of set sizes, of sets of a word, of nodes, saved and loaded, extended and loaded again", func(yield func(described) bool) {
		for i, p := range descriptions(c) {
			p.Into = []string{"new", "dirty", "older", "mirror"}[i%4]
			if !yield(p) {
				return
			}
		}
	}, func(x *mc.X, p described) error {
		w := newWorld(true)
		if err := p.build(w); err != nil {
			return err
		}

		if err := w.saveAndLoad(p.Into); err != nil {
			return err
		}

		if err := w.sameAsTwin(); err != nil {
			return err
		}

		if p.Nodes+p.Sets < 5000 {
			if err := w.checkWords(nil); err != nil {
				return err
			}
		}

		if err := w.checkTags(); err != nil {
			return err
		}

		if p.Tags > 2 {
			for _, word := range []string{"c000x", "s0", "new"} {
				if err := w.attribute(word, set{tagName(0), tagName(1)}, "add"); err != nil {
					return err
				}

				if err := w.attribute(word, set{tagName(2)}, "fetch"); err != nil {
					return err
				}
			}
		}

		if err := w.saveAndLoad("new"); err != nil {
			return err
		}

		x.Trans(p.Tags + p.Sets + p.Nodes + p.Collections)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(w.state())

		return w.sameAsTwin()
	})

	type letters struct {
		From int `json:"from"`
	}

	mc.Family(c, "letters", "every valid code point as a letter of a saved and loaded index", func(yield func(letters) bool) {
		for from := 0; from < 0x110000; from += 0x2000 {
			if !yield(letters{from}) {
				return
			}
		}
	}, func(x *mc.X, p letters) error {
		w := newWorld(true)

		for code := p.From; code < p.From+0x2000; code++ {
			if code < 0xd800 || code > 0xdfff {
				if err := w.add(string(rune(code)), "runes"); err != nil {
					return err
				}
			}
		}

		x.Trans(0x2000)
		x.Trace(1)
		x.Evals(0x2000, 0x2000)

		if err := w.saveAndLoad("new"); err != nil {
			return err
		}

		return w.checkWords(nil)
	})

	// attributions of small sets, loading after each
	loadPatterns(c, "patterns", []string{"new", "mirror"}, func(w *world, into string) error { return w.saveAndLoad(into) }, check)
}

type pattern struct {
	Steps []int `json:"steps"` // word*len(sets)+set
	Loads []int `json:"loads"` // what happens after each step
}

// loadPatterns enumerates attributions of 7 sets over 3 tags to 2 words, with one of the given events (or none) after each.
func loadPatterns(c *mc.C, name string, events []string, event func(w *world, e string) error, check func(w *world) error) {
	var sets []set

	for n := 1; n <= 3; n++ {
		mc.Combinations([]string{tagName(2), tagName(0), tagName(1)}, n, func(v []string) bool {
			sets = append(sets, v)
			return true
		})
	}

	steps := c.Pick(3, 4)
	words := []string{"ab", "a"}

	mc.Family(c, name, fmt.Sprintf("all sequences of %d attributions of one of 7 tag sets to one of 2 words, each followed by one of %v or nothing", steps, events), func(yield func(pattern) bool) {
		mc.Each(2*len(sets), steps, func(s []int) bool {
			ok := true

			mc.Each(len(events)+1, steps, func(l []int) bool {
				ok = yield(pattern{append([]int{}, s...), append([]int{}, l...)})
				return ok
			})

			return ok
		})
	}, func(x *mc.X, p pattern) error {
		w := newWorld(true)

		for i := 0; i < 3; i++ {
			if err := w.register(tagName(i), ""); err != nil {
				return err
			}
		}

		for i, step := range p.Steps {
			if err := w.attribute(words[step/len(sets)], sets[step%len(sets)], "add"); err != nil {
				return err
			}

			if p.Loads[i] > 0 {
				if err := event(w, events[p.Loads[i]-1]); err != nil {
					return err
				}
			}
		}

		x.Trans(2 * len(p.Steps))
		x.Trace(1)
		x.Evals(1, 1)
		x.State(w.state())

		if err := w.checkTags(); err != nil {
			return err
		}

		return check(w)
	})
}

// combinations are all combinations of tag sets an image holds.
func combinations(data []byte) (map[string]int, error) {
	ix := index.New()
	if err := load(ix, data, 0); err != nil {
		return nil, err
	}

	res := map[string]int{}

	for table := 1; table < 300; table++ {
		for at := 0; ; at++ {
			ids, err := ix.Variants(index.VariantID(storage.Combine16(storage.ID16(table), storage.ID16(at))))
			if err != nil {
				break
			}

			var sets []string

			for _, id := range ids {
				tagSet, ok := ix.TagSetIndex().Get(id)
				if !ok {
					return nil, mc.Failf("combination %d/%d has unknown tag set %#x", table, at, id)
				}

				tags, err := ix.TagSet(tagSet)
				if err != nil {
					return nil, err
				}

				names := make([]string, len(tags))
				for i, tag := range tags {
					names[i] = string(tag.Parent) + "/" + string(tag.Name)
				}

				sets = append(sets, canon(names))
			}

			sort.Strings(sets)
			res[strings.Join(sets, "")]++
		}
	}

	return res, nil
}

// optimize optimizes the index and checks the image.
func (w *world) optimize() error {
	before := dump(w.ix, false)

	image, err := save(w.ix)
	if err != nil {
		return mc.Failf("saving: %v", err)
	}

	w.ix.Optimize()

	if after := dump(w.ix, false); after != before {
		return mc.Failf("optimizing changes answers: %s", firstDifference(after, before))
	}

	optimized, err := save(w.ix)
	if err != nil {
		return mc.Failf("saving after optimizing: %v", err)
	}

	if len(optimized) > len(image) {
		return mc.Failf("optimized image of %d bytes is larger than before: %d", len(optimized), len(image))
	}

	got, err := combinations(optimized)
	if err != nil {
		return mc.Failf("reading combinations of the optimized image: %v", err)
	}

	used := map[string]bool{}

	for _, sets := range w.sets {
		var list []string
		for s := range sets {
			list = append(list, s)
		}

		sort.Strings(list)

		if len(list) > 0 {
			used[strings.Join(list, "")] = true
		}
	}

	for combination, n := range got {
		if n != 1 || !used[combination] {
			return mc.Failf("optimized image holds combination %s %d times, used by a word: %v", combination, n, used[combination])
		}
	}

	if len(got) != len(used) {
		return mc.Failf("optimized image holds %d combinations of %d used", len(got), len(used))
	}

	w.ix.Optimize()

	if again, err := save(w.ix); err != nil || !bytes.Equal(again, optimized) {
		return mc.Failf("optimizing again changes the image from %q to %q, %v", optimized, again, err)
	}

	if after := dump(w.ix, false); after != before {
		return mc.Failf("optimizing again changes answers: %s", firstDifference(after, before))
	}

	return nil
}

func checkOptimize(c *mc.C) {
	c.Rule("Two indexes are driven in lockstep through the same operations, one of them being optimized at every possible set of points: all operation sequences " +
		"up to a depth, all patterns of attributions of small tag sets, sweeps over sizes. Compared are all answers after each step or only at the end; after every " +
		"optimization the combinations held by the saved image are enumerated and compared with those the reference says are in use, and the optimization is repeated.")

	check := func(w *world) error {
		if a, b := dump(w.ix, false), dump(w.twin, false); a != b {
			return mc.Failf("optimized index differs from the one that was never optimized: %s", firstDifference(a, b))
		}

		return nil
	}
	optimizeOp := op{"optimize", func(w *world) error { return w.optimize() }}
	plainOp := op{"optimize only", func(w *world) error {
		w.ix.Optimize()
		return nil
	}}

	ops := []op{
		addOp("ab", "string"), extendOp("ab", "b"), attrOp("ab", "add", "AAAA"), attrOp("ab", "held", "BBBB", "AAAA"), attrOp("ab", "held", "BBBB"),
		attrOp("a", "add", "BBBB"), attrOp("b", "add", "BBBB"), attrOp("b", "get", "AAAA"), attrOp("b", "add", "AAAA", "BBBB"),
		optimizeOp, plainOp, reloadOp("new"),
	}
	full := func(w *world) error {
		if err := check(w); err != nil {
			return err
		}

		return w.checkTags()
	}
	mc.Sequences(c, prepared(lockstep("optimize.swept", ops, true, true, full)), c.Pick(4, 5))
	mc.Sequences(c, prepared(lockstep("optimize.final", ops, true, false, full)), c.Pick(5, 6))

	again := append([]op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "add", "BBBB"), attrOp("b", "add", "BBBB"), attrOp("b", "add", "AAAA", "BBBB"), plainOp, optimizeOp,
	}, keepOps...)
	restored := prepared(lockstep("optimize.restored", again, true, true, full))
	restored.Final = func(w *world) error { return w.optimize() }
	mc.Sequences(c, restored, c.Pick(5, 6))

	few := []op{attrOp("ab", "add", "AAAA"), attrOp("ab", "held", "BBBB"), attrOp("a", "add", "BBBB"), attrOp("a", "add", "AAAA"), plainOp}
	mc.Sequences(c, prepared(lockstep("optimize.few", few, true, false, func(w *world) error {
		if err := full(w); err != nil {
			return err
		}

		return w.optimize()
	})), c.Pick(6, 8))

	loadPatterns(c, "patterns", []string{"optimize", "optimize only"}, func(w *world, e string) error {
		if e == "optimize only" {
			w.ix.Optimize()
			return nil
		}

		return w.optimize()
	}, check)

	mc.Family(c, "sizes", "indexes with every number of tags, of sets of one size, of set sizes, of sets of a word, of nodes, optimized, extended and optimized again", func(yield func(described) bool) {
		for _, p := range descriptions(c) {
			if p.Tags == 0 || p.Sets > 0 {
				if !yield(p) {
					return
				}
			}
		}
	}, func(x *mc.X, p described) error {
		w := newWorld(true)
		if err := p.build(w); err != nil {
			return err
		}

		if err := w.optimize(); err != nil {
			return err
		}

		if p.Tags > 2 {
			for _, word := range []string{"c000x", "s0", "new", "c001"} {
				if err := w.attribute(word, set{tagName(0), tagName(1)}, "add"); err != nil {
					return err
				}

				if err := w.attribute(word, set{tagName(2)}, "fetch"); err != nil {
					return err
				}
			}
		}

		if err := check(w); err != nil {
			return err
		}

		if err := w.optimize(); err != nil {
			return err
		}

		x.Trans(p.Tags + p.Sets + p.Nodes + p.Collections)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(w.state())

		if err := w.checkTags(); err != nil {
			return err
		}

		return check(w)
	})
}
