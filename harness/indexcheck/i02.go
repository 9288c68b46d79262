//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

// prepared is a world with two tags registered.
func prepared(l mc.Lockstep[*world]) mc.Lockstep[*world] {
	fresh := l.New
	l.New = func() *world {
		w := fresh()
		if w.register("AAAA", "") != nil || w.register("BBBB", "AAAA") != nil {
			panic("can not register tags")
		}

		return w
	}

	return l
}

func tagName(i int) string { return fmt.Sprintf("T%03x", i) }

func checkAttribution(c *mc.C) {
	c.Rule("Lockstep of the real index with a reference map of words to sets of tag sets: all sequences of attributions (each through a node got by adding, " +
		"looking up, by id or kept since it was added), registrations, refused attributions, saves and optimizations up to a depth; all ordered triples of " +
		"tag sets over 5 tags to one and to two words; every size of set, every tag id, every number of sets of a word, every order. Compared are the tag sets " +
		"of every node, word and node counts and the tag list, after each step or (in .final variants) only at the end.")
	c.Assume("a tag is named at most once in one attributed set; node handles are used before the index is replaced by a loaded one only")

	check := func(w *world) error { return w.checkTags() }
	saveOp := op{"save", func(w *world) error {
		_, err := save(w.ix)
		return err
	}}
	optimizeOp := op{"optimize", func(w *world) error { w.ix.Optimize(); return nil }}

	ops := []op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "add", "AAAA", "BBBB"), attrOp("ab", "held", "BBBB", "AAAA"), attrOp("a", "add", "BBBB", "AAAA"),
		attrOp("a", "get", "BBBB"), attrOp("b", "add", "AAAA"), attrOp("ab", "fetch", "CCCC", "AAAA"), attrOp("b", "add", "CCCC"), attrOp("ab", "add"),
		tagOp("CCCC", "BBBB"), attrOp("a", "held", "AAAA", "CCCC", "BBBB"), attrOp("", "get", "AAAA"),
	}
	mc.Sequences(c, prepared(lockstep("attribute.swept", ops, false, true, check)), c.Pick(5, 6))
	mc.Sequences(c, prepared(lockstep("attribute.final", ops, false, false, check)), c.Pick(5, 6))

	mixed := []op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "held", "BBBB"), attrOp("b", "add", "BBBB"), attrOp("ab", "fetch", "BBBB", "AAAA"), attrOp("b", "held", "AAAA"),
		attrOp("a", "add", "NONE"), addOp("aba", "string"), saveOp, optimizeOp,
		{"save and load", func(w *world) error { return w.saveAndLoad("new") }},
	}
	mc.Sequences(c, prepared(lockstep("mixed.swept", mixed, false, true, check)), c.Pick(5, 6))
	mc.Sequences(c, prepared(lockstep("mixed.final", mixed, false, false, check)), c.Pick(5, 6))

	again := append([]op{
		attrOp("ab", "add", "AAAA"), attrOp("ab", "add", "BBBB"), attrOp("b", "add", "BBBB"), attrOp("b", "held", "AAAA"), attrOp("a", "add", "BBBB", "AAAA"),
		addOp("ba", "string"), optimizeOp,
	}, keepOps...)
	mc.Sequences(c, prepared(lockstep("restored.swept", again, false, true, check)), c.Pick(5, 6))

	// merged exploration of one word's attributions: all orders in which subsets of 9 sets can arrive
	var wide []op

	for _, word := range []string{"ab", "a"} {
		for _, tags := range []set{{"AAAA"}, {"BBBB"}, {"AAAA", "BBBB"}, {"BBBB", "AAAA"}, {"CCCC"}, {"CCCC", "AAAA"}} {
			wide = append(wide, attrOp(word, "add", tags...))
		}
	}

	wide = append(wide, tagOp("CCCC", ""))
	mc.BFS(c, prepared(lockstep("attribute.wide", wide, false, true, check)), c.Pick(8, 16), 400000)

	type triple struct {
		Sets  []set `json:"sets"`
		Words []int `json:"words"`
	}

	var sets []set

	names := []string{tagName(0), tagName(1), tagName(2), tagName(3), tagName(4)}
	for n := 1; n <= len(names); n++ {
		mc.Combinations(names, n, func(v []string) bool {
			if len(sets)%2 == 1 { // half of the sets is given in descending order
				for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
					v[i], v[j] = v[j], v[i]
				}
			}

			sets = append(sets, v)

			return true
		})
	}

	vocabulary := []string{"ab", "abc", "b"}

	mc.Family(c, "triples", "all ordered triples out of 31 tag sets over 5 tags attributed to all patterns of up to 3 words", func(yield func(triple) bool) {
		for _, words := range [][]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 1, 2}} {
			stop := false

			mc.Each(len(sets), 3, func(i []int) bool {
				stop = !yield(triple{[]set{sets[i[0]], sets[i[1]], sets[i[2]]}, words})
				return !stop
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, p triple) error {
		w := newWorld(false)

		for i, name := range names {
			if err := w.register(name, []string{"", names[0]}[min(i, 1)]); err != nil {
				return err
			}
		}

		for i, tags := range p.Sets {
			if err := w.attribute(vocabulary[p.Words[i]], tags, "add"); err != nil {
				return err
			}
		}

		x.Trans(3)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(w.state())

		return w.checkTags()
	})

	type sized struct {
		Sizes []int  `json:"sizes"`
		Order string `json:"order"`
	}

	// a full tag list; sets of every size in several orders
	full := func(w *world) error {
		for i := 0; i < 256; i++ {
			parent := ""
			if i%3 > 0 {
				parent = tagName(i - i%3)
			}

			if err := w.register(tagName(i), parent); err != nil {
				return err
			}
		}

		return nil
	}

	ordered := func(size, shift int, order string) set {
		tags := make(set, size)
		for i := range tags {
			switch order {
			case "descending":
				tags[size-1-i] = tagName((i + shift) % 256)
			case "rotated":
				tags[(i+size/2)%size] = tagName((i + shift) % 256)
			default:
				tags[i] = tagName((i + shift) % 256)
			}
		}

		return tags
	}

	orders := []string{"ascending", "descending", "rotated"}

	mc.Family(c, "sizes", "tag sets of every size 1..255 out of 256 tags, every cyclic start of the size (every start in the thorough tier) and 3 orders, to two words", func(yield func(sized) bool) {
		for size := 1; size <= 255; size++ {
			for _, order := range orders {
				if !yield(sized{[]int{size}, order}) {
					return
				}
			}
		}
	}, func(x *mc.X, p sized) error {
		w := newWorld(false)
		if err := full(w); err != nil {
			return err
		}

		step := 37
		if !x.Quick() {
			step = 3
		}

		for shift := 0; shift < 256; shift += step {
			if err := w.attribute("ab", ordered(p.Sizes[0], shift, p.Order), "add"); err != nil {
				return err
			}

			if err := w.attribute("b", ordered(p.Sizes[0], 256-shift, orders[shift%3]), "add"); err != nil {
				return err
			}

			x.Trans(2)
		}

		x.Trace(1)
		x.Evals(1, 1)
		x.State(fmt.Sprint("sizes", p))

		return w.checkTags()
	})

	type many struct {
		N     int    `json:"n"`
		Order string `json:"order"`
	}

	mc.Family(c, "collections", "words with every number 1..300 of tag sets, attributed in 3 orders, second word attributed in ascending order", func(yield func(many) bool) {
		for n := 1; n <= 300; n++ {
			for _, order := range orders {
				if !yield(many{n, order}) {
					return
				}
			}
		}
	}, func(x *mc.X, p many) error {
		w := newWorld(false)
		if err := full(w); err != nil {
			return err
		}

		if err := w.attribute("warm", set{tagName(255), tagName(254)}, "add"); err != nil {
			return err
		}

		for i := 0; i < p.N; i++ {
			at := i

			switch p.Order {
			case "descending":
				at = p.N - 1 - i
			case "rotated":
				at = (i + p.N/2) % p.N
			}

			if err := w.attribute("ab", ordered(at%4+1, at/4, orders[i%3]), []string{"add", "held"}[i%2]); err != nil {
				return err
			}

			x.Trans(2)
		}

		for i := 0; i < p.N; i++ {
			if err := w.attribute("b", ordered(i%4+1, i/4, "ascending"), "add"); err != nil {
				return err
			}
		}

		x.Trace(1)
		x.Evals(1, 1)
		x.State(fmt.Sprint("collections", p))

		return w.checkTags()
	})

	type fill struct {
		N    int `json:"n"`
		Size int `json:"size"`
	}

	fills := []fill{{255, 1}, {256, 1}, {5000, 2}, {20000, 2}, {32640, 2}}
	if !c.Quick() {
		fills = append(fills, fill{65536, 3})
	}

	mc.Family(c, "fill", "tables of tag sets and combinations filled with up to 20000 (65536 in the thorough tier) different sets, one per word", func(yield func(fill) bool) {
		for _, f := range fills {
			if !yield(f) {
				return
			}
		}
	}, func(x *mc.X, p fill) error {
		ix := index.New()
		list := make([]dag.TagName, 256)

		for i := range list {
			list[i] = dag.TagName(tagName(i))
			ix.TagID(list[i], "")
		}

		var sets [][]dag.TagName

		mc.Combinations(list, p.Size, func(v []dag.TagName) bool {
			sets = append(sets, v)
			return len(sets) < p.N
		})

		for i, tags := range sets {
			node, err := ix.AddString(fmt.Sprintf("w%x", i))
			if err != nil {
				return err
			}

			reversed := append([]dag.TagName{}, tags...)
			for a, b := 0, len(reversed)-1; a < b; a, b = a+1, b-1 {
				reversed[a], reversed[b] = reversed[b], reversed[a]
			}

			if err = node.AddTagSet(reversed...); err != nil {
				return err
			}
		}

		for i, tags := range sets {
			node, err := ix.FetchString(fmt.Sprintf("w%x", i))
			if err != nil {
				return err
			}

			want := make([]string, len(tags))
			for j, tag := range tags {
				want[j] = "----/" + string(tag)
			}

			if got := nodeSets(node); len(got) != 1 || got[0] != canon(want) {
				return mc.Failf("word %d of %d has tag sets %s, expected %s", i, p.N, strings.Join(got, ""), canon(want))
			}
		}

		if ix.WordsCount() != len(sets) {
			return mc.Failf("%d words, expected %d", ix.WordsCount(), len(sets))
		}

		x.Trans(len(sets))
		x.Trace(1)
		x.Evals(len(sets), len(sets))

		return nil
	})
}
