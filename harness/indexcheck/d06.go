//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

// texts joins what parts are displayed as.
func texts(values []int) string {
	var b strings.Builder

	for i, v := range values {
		if i > 0 {
			b.WriteByte(',')
		}

		b.WriteString(strconv.Itoa(v))
	}

	return b.String()
}

// sameText compares a text, made twice, and in a formatted message.
func sameText(what string, value fmt.Stringer, want string) error {
	for i := 0; i < 2; i++ {
		if got := value.String(); got != want {
			return mc.Failf("%s is displayed as %q, expected %q", what, got, want)
		}
	}

	if got := fmt.Sprintf("%v", value); got != want {
		return mc.Failf("%s is printed as %q, expected %q", what, got, want)
	}

	return nil
}

// mapText compares the text of a map; entries are given in any order.
func mapText(got, name string, entries []string) error {
	if len(entries) >= 10 {
		if want := name + "(len()=" + strconv.Itoa(len(entries)) + ")"; got != want {
			return mc.Failf("map of %d entries is displayed as %q, expected %q", len(entries), got, want)
		}

		return nil
	}

	rest, ok := strings.CutPrefix(got, name+"(")
	if ok {
		rest, ok = strings.CutSuffix(rest, ")")
	}

	var parts []string
	if rest != "" {
		parts = []string{rest}
	}

	if len(entries) > 1 {
		parts = strings.Split(rest, ",")
	}

	sort.Strings(parts)
	sort.Strings(entries)

	if !ok || !reflect.DeepEqual(append([]string{}, parts...), append([]string{}, entries...)) {
		return mc.Failf("map is displayed as %q, expected %q and nothing else", got, entries)
	}

	return nil
}

// checkTexts checks D06.
func checkTexts(c *mc.C) {
	c.Rule("Texts are compared with those made from the plain values: all tag lists of up to 3 tags out of 9 names, all tag id lists of up to 2 ids (3 over " +
		"boundary ids), lists of every length to 300, all tables of up to 3 lists, nodes of all combinations of boundary numbers, all maps over subsets of 11 " +
		"letters, every node of indexes of all words over 3 letters up to a length, fresh and loaded. Each text is made twice; values must not change.")

	names := []dag.TagName{"NOUN", "    ", "----", "сы", "", "a,b,", "LongerName", "V", "\x00\xff12"}

	type list struct {
		V []int `json:"v"`
	}

	each := func(n, length int) func(yield func(list) bool) {
		return func(yield func(list) bool) {
			for l := 0; l <= length; l++ {
				ok := true

				mc.Each(n, l, func(v []int) bool {
					ok = yield(list{append([]int{}, v...)})
					return ok
				})

				if !ok {
					return
				}
			}
		}
	}

	dagText := func(of []dag.TagName) error {
		tags := make(dag.TagSet, len(of))
		parts := make([]string, len(of))

		for i, name := range of {
			tags[i] = dag.Tag{Parent: names[(i+len(of))%len(names)], Name: name}
			parts[i] = string(name)

			if err := sameText("name", name, string(name)); err != nil {
				return err
			}

			if err := sameText(fmt.Sprintf("tag %q of %q", name, tags[i].Parent), tags[i], string(name)); err != nil {
				return err
			}
		}

		was := append(dag.TagSet{}, tags...)

		if err := sameText(fmt.Sprintf("tag set of %q", of), tags, strings.Join(parts, ",")); err != nil {
			return err
		}

		if !reflect.DeepEqual(was, append(dag.TagSet{}, tags...)) {
			return mc.Failf("displaying %v changes it to %v", was, tags)
		}

		return nil
	}

	mc.Family(c, "tags", "all lists of up to 3 (4) tags out of 9", each(len(names), c.Pick(3, 4)), func(x *mc.X, p list) error {
		of := make([]dag.TagName, len(p.V))
		for i, v := range p.V {
			of[i] = names[v]
		}

		x.Trace(1)
		x.Trans(len(p.V))
		x.Evals(1, 1)
		x.State(fmt.Sprint("tags", p.V))

		return dagText(of)
	})

	idText := func(v []int) error {
		ids := tagList(v)
		if err := sameText("tag id list "+short(v), ids, "TS("+texts(v)+")"); err != nil {
			return err
		}

		if !equalInts(v, ints(ids)) {
			return mc.Failf("displaying %s changes it to %v", short(v), ids)
		}

		return nil
	}

	mc.Family(c, "ids", "all tag id lists of up to 2 ids, of up to 3 (4) boundary ids", func(yield func(list) bool) {
		ok := true
		each(256, 2)(func(l list) bool { ok = yield(l); return ok })

		if !ok {
			return
		}

		bound := []int{0, 1, 9, 10, 99, 100, 127, 128, 254, 255}

		for n := 3; n <= c.Pick(3, 4); n++ {
			mc.Each(len(bound), n, func(v []int) bool {
				l := list{}
				for _, at := range v {
					l.V = append(l.V, bound[at])
				}

				return yield(l)
			})
		}
	}, func(x *mc.X, p list) error {
		x.Trace(1)
		x.Trans(len(p.V))
		x.Evals(1, 1)

		return idText(p.V)
	})

	mc.Family(c, "lengths", "lists and tables of every length to 300 (2000)", func(yield func(int) bool) {
		for n := 0; n <= c.Pick(300, 2000); n++ {
			if !yield(n) {
				return
			}
		}
	}, func(x *mc.X, n int) error {
		v := make([]int, n)
		of := make([]dag.TagName, n)
		table := make(index.TagSetTable, n)
		lines := make([]string, n)

		for i := range v {
			v[i] = i * 7 % 256
			of[i] = names[i*5%len(names)]
			table[i] = tagList(v[i-i%3 : i])
			lines[i] = strconv.Itoa(i) + ": TS(" + texts(v[i-i%3:i]) + ")"
		}

		x.Trace(1)
		x.Trans(n)
		x.Evals(3, 3)

		if err := idText(v); err != nil {
			return err
		}

		if err := sameText(fmt.Sprintf("table of %d lists", n), table, "TT("+strings.Join(lines, ",")+")"); err != nil {
			return err
		}

		return dagText(of)
	})

	some := [][]int{{}, {0}, {255}, {1, 0}, {0, 1, 2}, {10, 10}}

	mc.Family(c, "tables", "all tables of up to 3 (4) lists out of 6", each(len(some), c.Pick(3, 4)), func(x *mc.X, p list) error {
		table := index.TagSetTable{}
		lines := make([]string, len(p.V))

		for i, at := range p.V {
			table = append(table, tagList(some[at]))
			lines[i] = strconv.Itoa(i) + ": TS(" + texts(some[at]) + ")"
		}

		x.Trace(1)
		x.Trans(len(p.V))
		x.Evals(1, 1)
		x.State(fmt.Sprint("table", p.V))

		return sameText(fmt.Sprint("table ", p.V), table, "TT("+strings.Join(lines, ",")+")")
	})

	numbers := []int{0, 1, 9, 10, 255, 256, 65535, 65536, 1 << 24, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32}
	letters := []rune{'a', 'я', ',', '`', ' ', '_', '1', 0, '\n', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff}

	mc.Family(c, "items", "nodes of all combinations of 12 numbers and 16 letters", each(len(letters), 1), func(x *mc.X, p list) error {
		if len(p.V) == 0 {
			return nil
		}

		letter := letters[p.V[0]]

		for _, id := range numbers {
			for _, parent := range numbers {
				for _, variants := range numbers {
					item := index.Item{Parent: dag.ID(parent), ID: dag.ID(id), Letter: letter, Variants: index.VariantID(variants)}

					if err := sameText(fmt.Sprintf("node %+v", item), item, fmt.Sprintf("%c%d_%d_%d", letter, id, parent, variants)); err != nil {
						return err
					}

					x.Evals(1, 1)
				}
			}
		}

		x.Trace(1)

		return nil
	})

	mc.Family(c, "maps", "all maps over subsets of 11 letters, four ids each; maps of one letter out of 16 and 12 numbers; maps to 40 letters", func(yield func(list) bool) {
		for mask := 0; mask < 1<<11; mask++ {
			if !yield(list{[]int{mask}}) {
				return
			}
		}

		for at := range letters {
			if !yield(list{[]int{0, at}}) {
				return
			}
		}

		for n := 0; n < 40; n++ {
			if !yield(list{[]int{n, 0, 0}}) {
				return
			}
		}
	}, func(x *mc.X, p list) error {
		check := func(m dag.IdMap) error {
			var entries []string
			for letter, id := range m {
				entries = append(entries, fmt.Sprintf("`%c`:%d", letter, id))
			}

			was := dag.IdMap{}
			for letter, id := range m {
				was[letter] = id
			}

			for i := 0; i < 3; i++ {
				if err := mapText(m.String(), "IDMap", append([]string{}, entries...)); err != nil {
					return err
				}
			}

			x.Evals(1, 1)

			if !reflect.DeepEqual(m, was) {
				return mc.Failf("displaying the map %v changes it", entries)
			}

			return nil
		}

		x.Trace(1)

		switch len(p.V) {
		case 1:
			for shift := 0; shift < 4; shift++ {
				m := dag.IdMap{}

				for at := 0; at < 11; at++ {
					if p.V[0]&(1<<at) != 0 {
						m[[]rune("abcdийклм\U0001F600`")[at]] = dag.ID(numbers[(at+shift*3)%len(numbers)])
					}
				}

				if err := check(m); err != nil {
					return err
				}
			}

			x.State(fmt.Sprint("map", p.V))
		case 2:
			for _, id := range numbers {
				if err := check(dag.IdMap{letters[p.V[1]]: dag.ID(id)}); err != nil {
					return err
				}
			}
		default:
			m := dag.IdMap{}
			for i := 0; i < p.V[0]; i++ {
				m[rune('а'+i)] = dag.ID(i * 1000003)
			}

			return check(m)
		}

		return nil
	})

	type words struct {
		Letters string `json:"letters"`
		Len     int    `json:"len"`
		Load    bool   `json:"load"`
	}

	mc.Family(c, "nodes", "every node and every map of children of indexes of all words over up to 3 letters (and of 1..12 letters), with tag sets or none, fresh and loaded", func(yield func(words) bool) {
		for _, load := range []bool{false, true} {
			for _, set := range []string{"a", "ab", "aя", "яю\U0001F600", "`[_", "123", "]\x00z"} {
				for n := 1; n <= c.Pick(4, 6); n++ {
					if !yield(words{set, n, load}) {
						return
					}
				}
			}

			for n := 1; n <= 12; n++ {
				if !yield(words{string([]rune("abcdийклм\U0001F600`]")[:n]), 2, load}) {
					return
				}
			}
		}
	}, func(x *mc.X, p words) error {
		ix := index.New()
		ix.TagID("NOUN", "")

		for i, word := range stringsOver([]rune(p.Letters), p.Len) {
			node, err := ix.AddString(word)
			if err != nil {
				return err
			}

			if i%3 == 1 {
				if err = node.AddTagSet("NOUN"); err != nil {
					return err
				}
			}
		}

		if p.Load {
			data, err := save(ix)
			if err != nil {
				return err
			}

			ix = index.New()
			if err = load(ix, data, 0); err != nil {
				return err
			}
		}

		before := dump(ix, true)
		text := func(id dag.ID) string {
			node := ix.GetItem(id)
			item := node.Item()
			runes := []rune(node.Word())

			return fmt.Sprintf("Node(%s[%c]%d_%d_%d)", string(runes[:len(runes)-1]), item.Letter, item.ID, item.Parent, uint32(item.Variants))
		}

		_ = ix.GetItem(0).String() // the root has no word

		for id := 0; id <= ix.NodesCount(); id++ {
			node := ix.GetItem(dag.ID(id))

			if id > 0 {
				if err := sameText(fmt.Sprintf("node %d %q", id, node.Word()), node, text(dag.ID(id))); err != nil {
					return err
				}
			}

			children := ix.GetChildrenMap(dag.ID(id))

			var entries []string
			for letter, child := range children {
				entries = append(entries, fmt.Sprintf("`%c`:%s", letter, text(dag.ID(idOf(child)))))
			}

			for i := 0; i < 2; i++ {
				if err := mapText(children.String(), "NodeMap", append([]string{}, entries...)); err != nil {
					return err
				}
			}

			x.Evals(2, 2)
		}

		x.Trace(1)
		x.State(fmt.Sprint("nodes", p.Letters, p.Len, p.Load))

		if after := dump(ix, true); after != before {
			return mc.Failf("displaying changes the index: %s", firstDifference(after, before))
		}

		return nil
	})
}
