//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

func checkWords(c *mc.C) {
	c.Rule("Lockstep of the real index with a reference set of prefixes: all sequences of additions, continuations, refused additions, lookups, attributions, " +
		"saves and optimizations up to a depth, all subsets and all ordered tuples of strings over small alphabets, every code point, every word length and " +
		"node count of sweeps. After each step (or, in the .final variants, only at the end) every stored prefix, every node id, every parent/letter, " +
		"every absent string over the alphabet up to a length and unknown ids are looked up by every lookup method.")
	c.Assume("words are valid UTF-8 strings and sequences of valid code points")

	probes := stringsOver([]rune("abя"), 3)
	check := func(w *world) error { return w.checkWords(probes) }

	saveOp := op{"save", func(w *world) error {
		_, err := save(w.ix)
		return err
	}}
	optimizeOp := op{"optimize", func(w *world) error { w.ix.Optimize(); return nil }}
	reloadOp := op{"save and load", func(w *world) error { return w.saveAndLoad("new") }}
	refuseOp := op{"refused additions", func(w *world) error { return w.refuse() }}

	ops := []op{
		addOp("a", "string"), addOp("ab", "runes"), addOp("aba", "string"), addOp("b", "runes"), addOp("яab", "string"),
		extendOp("a", "b"), extendOp("ab", "aя"), extendOp("", "ba"), extendOp("b", "a"), refuseOp, saveOp,
	}
	mc.Sequences(c, lockstep("add.swept", ops, false, true, check), c.Pick(4, 5))
	mc.Sequences(c, lockstep("add.final", ops, false, false, check), c.Pick(4, 5))

	mixed := []op{
		addOp("a", "string"), addOp("ab", "string"), addOp("ba", "runes"), extendOp("a", "ba"), extendOp("ab", "ab"),
		tagOp("AAAA", ""), attrOp("ab", "add", "AAAA"), attrOp("b", "add", "AAAA"), reloadOp, optimizeOp, refuseOp,
	}
	mc.Sequences(c, lockstep("mixed.swept", mixed, false, true, check), c.Pick(4, 5))
	mc.Sequences(c, lockstep("mixed.final", mixed, false, false, check), c.Pick(4, 5))

	again := append([]op{
		addOp("a", "string"), addOp("ab", "runes"), addOp("ba", "string"), extendOp("a", "ba"), addOp("bb", "runes"), attrOp("b", "add", "AAAA"), optimizeOp,
	}, keepOps...)
	mc.Sequences(c, prepared(lockstep("restored.swept", again, false, true, check)), c.Pick(5, 6))

	type words struct {
		Words []string `json:"words"`
		How   string   `json:"how"`
	}

	runWords := func(x *mc.X, p words) error {
		w := newWorld(false)

		for _, word := range p.Words {
			if p.How == "continue" {
				// longest known prefix, then continue
				known := ""
				for pos := range word {
					if _, ok := w.ids[word[:pos]]; ok {
						known = word[:pos]
					}
				}

				if err := w.extend(known, word[len(known):]); err != nil {
					return err
				}
			} else if err := w.add(word, p.How); err != nil {
				return err
			}
		}

		x.Trans(len(p.Words))
		x.Trace(1)
		x.Evals(1, 1)
		x.State(w.state())

		return w.checkWords(probes)
	}

	all := stringsOver([]rune("ab"), 3)
	hows := []string{"string", "runes", "continue"}

	mc.Family(c, "subsets", "all subsets of the 14 strings over 2 letters up to length 3, added in order and in reverse order, in three ways", func(yield func(words) bool) {
		for mask := 1; mask < 1<<len(all); mask++ {
			var in, back []string

			for i, s := range all {
				if mask&(1<<i) != 0 {
					in = append(in, s)
					back = append([]string{s}, back...)
				}
			}

			if !yield(words{in, hows[mask%3]}) || !yield(words{back, hows[(mask+1)%3]}) {
				return
			}
		}
	}, runWords)

	tuple := stringsOver([]rune("aя\U0001F600"), c.Pick(2, 3))

	mc.Family(c, "triples", fmt.Sprintf("all ordered triples of the %d strings over 3 letters of 1, 2 and 4 bytes", len(tuple)), func(yield func(words) bool) {
		mc.Each(len(tuple), 3, func(i []int) bool {
			return yield(words{[]string{tuple[i[0]], tuple[i[1]], tuple[i[2]]}, hows[(i[0]+i[1]+i[2])%3]})
		})
	}, runWords)

	type count struct {
		N     int    `json:"n"`
		Shape string `json:"shape"`
	}

	// wide: n children of the root; chain: one word of n letters; comb: a chain with one extra child each; tree: ternary
	shapes := func(p count) (res []string) {
		switch p.Shape {
		case "wide":
			for i := 0; i < p.N; i++ {
				res = append(res, string(rune(0x4e00+i)))
			}
		case "chain":
			res = append(res, strings.Repeat("xy", p.N/2)+strings.Repeat("x", p.N%2))
		case "comb":
			for i := 0; i < p.N; i++ {
				res = append(res, strings.Repeat("x", i)+"y")
			}
		default:
			for i := 1; i <= p.N; i++ {
				s := ""
				for v := i; v > 0; v /= 3 {
					s = string(rune('a'+v%3)) + s
				}

				res = append(res, s)
			}
		}

		return res
	}

	maxCount := c.Pick(150, 240)

	mc.Family(c, "counts", fmt.Sprintf("indexes of every size 1..%d in 4 shapes", maxCount), func(yield func(count) bool) {
		for n := 1; n <= maxCount; n++ {
			for _, shape := range []string{"wide", "chain", "comb", "tree"} {
				if !yield(count{n, shape}) {
					return
				}
			}
		}
	}, func(x *mc.X, p count) error {
		w := newWorld(false)

		for i, word := range shapes(p) {
			if err := w.add(word, hows[i%2]); err != nil {
				return err
			}
		}

		x.Trans(p.N)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(p.Shape + w.state())

		return w.checkWords(nil)
	})

	type codes struct {
		From int `json:"from"`
		To   int `json:"to"`
	}

	mc.Family(c, "letters", "every valid code point as first and as second letter, 65536 of them in one index", func(yield func(codes) bool) {
		for from := 0; from < 0x110000; from += 0x10000 {
			if !yield(codes{from, from + 0x10000}) {
				return
			}
		}
	}, func(x *mc.X, p codes) error {
		ix := index.New()

		var letters []rune

		for code := p.From; code < p.To; code++ {
			if code < 0xd800 || code > 0xdfff {
				letters = append(letters, rune(code))
			}
		}

		for i, letter := range letters {
			node, err := ix.AddRunes([]rune{letter})
			if err != nil || idOf(node) != i+1 {
				return mc.Failf("adding letter %#x: %v, %v", letter, node, err)
			}
		}

		for i, letter := range letters {
			node, err := ix.AddRunes([]rune{letters[0], letter})
			if err != nil || idOf(node) != len(letters)+i+1 {
				return mc.Failf("adding letter %#x second: %v, %v", letter, node, err)
			}
		}

		if ix.NodesCount() != 2*len(letters) || len(ix.Children()) != len(letters) || len(ix.GetChildrenMap(1)) != len(letters) {
			return mc.Failf("%d nodes, %d children, %d children", ix.NodesCount(), len(ix.Children()), len(ix.GetChildrenMap(1)))
		}

		for i, letter := range letters {
			node, err := ix.FetchString(string(letter))
			if err != nil || idOf(node) != i+1 || node.Word() != string(letter) {
				return mc.Failf("fetching letter %#x: %v, %v", letter, node, err)
			}

			node, err = ix.FetchString(string(letters[0]) + string(letter))
			if err != nil || idOf(node) != len(letters)+i+1 || node.Word() != string(letters[0])+string(letter) {
				return mc.Failf("fetching letter %#x second: %v, %v", letter, node, err)
			}

			if i > 0 {
				if _, err = ix.FetchString(string(letter) + "a"); err == nil {
					return mc.Failf("found absent %#x a", letter)
				}
			}

			item := ix.GetItem(dag.ID(i + 1)).Item()
			if item.Letter != letter || item.Parent != 0 || int(item.ID) != i+1 {
				return mc.Failf("item %d is %+v", i+1, item)
			}

			if _, err = ix.Get(dag.ID(2*len(letters) + 1 + i)); err == nil {
				return mc.Failf("unknown node %d got", 2*len(letters)+1+i)
			}
		}

		x.Trans(2 * len(letters))
		x.Trace(1)
		x.Evals(2*len(letters), 2*len(letters))
		x.State(fmt.Sprint("letters", p.From))

		return nil
	})

	type depth struct {
		Len int `json:"len"`
	}

	lengths := []int{}
	for n := 500; n <= c.Pick(2000, 4000); n += 500 {
		lengths = append(lengths, n)
	}

	lengths = append(lengths, 255, 256, 257, 1023, 1024, 1025)

	mc.Family(c, "long", "words of up to thousands of letters, all their prefixes", func(yield func(depth) bool) {
		for _, n := range lengths {
			if !yield(depth{n}) {
				return
			}
		}
	}, func(x *mc.X, p depth) error {
		w := newWorld(false)

		runes := make([]rune, p.Len)
		for i := range runes {
			runes[i] = rune(0x430 + i*i%32)
		}

		if err := w.add(string(runes), "string"); err != nil {
			return err
		}

		for n := 1; n <= p.Len; n++ {
			node, err := w.ix.FetchRunes(runes[:n])
			if err != nil || idOf(node) != n || (n%50 == 0 || n > p.Len-3) && node.Word() != string(runes[:n]) {
				return mc.Failf("prefix of %d of %d: %v", n, p.Len, err)
			}
		}

		if _, err := w.ix.FetchString(string(runes) + "а"); err == nil || w.ix.NodesCount() != p.Len {
			return mc.Failf("%d nodes of %d, longer word: %v", w.ix.NodesCount(), p.Len, err)
		}

		if err := w.add(string(runes[:p.Len/2])+"z", "runes"); err != nil {
			return err
		}

		x.Trans(2)
		x.Trace(1)
		x.Evals(p.Len, p.Len)

		return nil
	})
}

// saveAndLoad replaces the index by its saved and loaded copy.
func (w *world) saveAndLoad(into string) error {
	before := dump(w.ix, true)

	data, err := save(w.ix)
	if err != nil {
		return mc.Failf("saving: %v", err)
	}

	if after := dump(w.ix, true); after != before {
		return mc.Failf("saving changes the index: %s", firstDifference(after, before))
	}

	w.reload++

	target := index.New()

	switch into {
	case "dirty":
		target = dirty()
	case "itself":
		target = w.ix
	case "mirror":
		if target, err = mirror(w.ix); err != nil {
			return err
		}
	case "older":
		// an index loaded before, then used
		target = index.New()
		if err = load(target, data, 0); err != nil {
			return err
		}

		if node, err := target.AddString("abaq"); err == nil {
			target.TagID("QQQQ", "")
			_ = node.AddTagSet("QQQQ")
		}

		target.Optimize()
	}

	if into != "new" && w.ix.NodesCount() < 3000 { // whatever a used index remembers of its answers
		ask(target, w.ix)
	}

	if err = load(target, data, w.reload%3); err != nil {
		return err
	}

	if after := dump(target, true); after != before {
		return mc.Failf("loaded index (%s) differs from the saved one: %s", into, firstDifference(after, before))
	}

	again, err := save(target)
	if err != nil || string(again) != string(data) {
		return mc.Failf("loaded index (%s) is saved differently (%d bytes, %d before): %v", into, len(again), len(data), err)
	}

	if target != w.ix {
		w.ix = target
		for i := range w.held {
			w.held[i] = nil
		}
	}

	return nil
}
