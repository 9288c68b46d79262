//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"sort"
	"testing/iotest"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

func tagList(values []int) index.TagSet {
	res := make(index.TagSet, len(values))
	for i, v := range values {
		res[i] = dag.TagID(v)
	}

	return res
}

func combination(values []int) index.TagSetIDCollection {
	res := make(index.TagSetIDCollection, len(values))
	for i, v := range values {
		res[i] = index.TagSetID(v)
	}

	return res
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

func short(v []int) string {
	if len(v) > 20 {
		return fmt.Sprintf("%v... (%d)", v[:20], len(v))
	}

	return fmt.Sprint(v)
}

// filler is a list of n values in no order.
func filler(n, factor, limit int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = (i*factor + n) % limit
	}

	return v
}

func checkBlocks(c *mc.C) {
	c.Rule("Complete input spaces: numbers of tables and positions, tag id lists of every length and all short ones, all sequences of parts in one stream; " +
		"fault points: every cut, piece and failing byte of a tag id list; lockstep: all sequences of node list operations to a depth. " +
		"evaluations: cases of these, all different.")

	checkNumbers(c)
	checkTagLists(c)
	checkListOrder(c)
	checkParts(c)
	checkNodeList(c)
	checkResolving(c)
}

// ---- numbers

func checkNumbers(c *mc.C) {
	mc.Family(c, "numbers", "every table number and position: its value and steps from it", func(yield func(int) bool) {
		for v := 0; v <= 0xffff; v++ {
			if !yield(v) {
				return
			}
		}
	}, func(x *mc.X, v int) error {
		x.Evals(1, 1)

		if index.TagSetSubID(v).Int() != v || int(index.TagSetSubID(v).ID16()) != v || index.TagSetTableNumber(v).Int() != v || int(index.TagSetTableNumber(v).ID16()) != v ||
			int(index.VariantSubID(v).ID16()) != v || int(index.CollectionTableNumber(v).ID16()) != v {
			return mc.Failf("the value of number %d is another one", v)
		}

		for _, d := range []int{-256, -2, -1, 0, 1, 2, 255, 256, 0x7fff, 0x8000} {
			if v+d < 0 || v+d > 0xffff {
				continue
			}

			if int(index.TagSetTableNumber(v).Add(d)) != v+d || int(index.CollectionTableNumber(v).Add(d)) != v+d || int(index.VariantSubID(v).Add(d)) != v+d {
				return mc.Failf("%d steps from %d are wrong", d, v)
			}
		}

		return nil
	})
}

// ---- tag id lists in streams of their own

var listSources = []struct {
	name string
	make func(data []byte) io.Reader
}{
	{"bytes", func(d []byte) io.Reader { return bytes.NewReader(d) }},
	{"buffer", func(d []byte) io.Reader { return bytes.NewBuffer(append([]byte{}, d...)) }},
	{"bufio", func(d []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(d), 16) }},
	{"one byte", func(d []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(d)) }},
	{"error with data", func(d []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(d)) }},
	{"reader only", func(d []byte) io.Reader { return struct{ io.Reader }{bytes.NewReader(d)} }},
}

func encodedList(values []int) []byte {
	data := []byte{byte(len(values))}
	for _, v := range values {
		data = append(data, byte(v))
	}

	return data
}

func listTrip(values []int) error {
	var buf bytes.Buffer

	list, want := tagList(values), encodedList(values)

	if n, err := list.WriteTo(&buf); err != nil || int(n) != len(want) || !bytes.Equal(buf.Bytes(), want) {
		return mc.Failf("writing %s: %d, %v, %.40x instead of %.40x", short(values), n, err, buf.Bytes(), want)
	}

	if !equalInts(ints(list), values) {
		return mc.Failf("writing %s changes it to %s", short(values), short(ints(list)))
	}

	for _, kind := range listSources {
		source := kind.make(append(append([]byte{}, want...), "tail"...))

		for _, target := range []index.TagSet{nil, tagList([]int{9, 8, 7, 6, 5, 4}), make(index.TagSet, 255)} {
			if target != nil {
				source = kind.make(append(append([]byte{}, want...), "tail"...))
			}

			before := append(index.TagSet{}, target...)
			kept := target
			n, err := target.ReadFrom(source)

			if err != nil || int(n) != len(want) || !equalInts(ints(target), values) {
				return mc.Failf("reading %s (%s): %d, %v, %s", short(values), kind.name, n, err, short(ints(target)))
			}

			if !equalInts(ints(kept), ints(before)) {
				return mc.Failf("reading %s (%s) changes the list the receiver held before", short(values), kind.name)
			}

			rest, err := io.ReadAll(source)
			if err != nil || string(rest) != "tail" {
				return mc.Failf("after reading %s (%s) the stream holds %q (%v)", short(values), kind.name, rest, err)
			}
		}
	}

	return nil
}

func checkTagLists(c *mc.C) {
	mc.Family(c, "lists.lengths", "tag id lists of every length 0..255 in three orders, every single id", func(yield func(int) bool) {
		for n := 0; n <= 255; n++ {
			if !yield(n) {
				return
			}
		}
	}, func(x *mc.X, n int) error {
		x.Evals(7, 7)

		for _, v := range [][]int{filler(n, 1, 256), filler(n, 37, 256), filler(n, 255, 256), {n}, {n, 0}, {255, n}, {n, n, n}} {
			if err := listTrip(v); err != nil {
				return err
			}
		}

		return nil
	})

	values := []int{0, 1, 127, 128, 254, 255}
	depth := c.Pick(4, 6)

	mc.Family(c, "lists.words", fmt.Sprintf("all tag id lists of up to %d of 6 boundary ids", depth), func(yield func([]int) bool) {
		for n := 0; n <= depth; n++ {
			if !eachWord(values, n, yield) {
				return
			}
		}
	}, func(x *mc.X, v []int) error {
		x.Evals(1, 1)

		return listTrip(v)
	})

	lists := [][]int{{}, {5}, {255, 0}, filler(200, 37, 256), {0, 0, 0}, filler(255, 3, 256)}
	sequence := c.Pick(4, 6)

	mc.Family(c, "lists.streams", fmt.Sprintf("all sequences of up to %d out of %d tag id lists in one stream, read into one receiver and into new ones", sequence, len(lists)), func(yield func([]int) bool) {
		for n := 1; n <= sequence; n++ {
			if !eachWord([]int{0, 1, 2, 3, 4, 5}, n, yield) {
				return
			}
		}
	}, func(x *mc.X, seq []int) error {
		x.Evals(2, 2)

		var buf bytes.Buffer

		for _, i := range seq {
			if _, err := tagList(lists[i]).WriteTo(&buf); err != nil {
				return mc.Failf("writing: %v", err)
			}
		}

		for _, reuse := range []bool{false, true} {
			var (
				target index.TagSet
				kept   []index.TagSet
			)

			source := bytes.NewReader(buf.Bytes())

			for n, i := range seq {
				if !reuse {
					target = nil
				}

				if k, err := target.ReadFrom(source); err != nil || int(k) != 1+len(lists[i]) || !equalInts(ints(target), lists[i]) {
					return mc.Failf("list %d of %v: %d, %v, %s", n, seq, k, err, short(ints(target)))
				}

				kept = append(kept, target)
			}

			for n, i := range seq {
				if !equalInts(ints(kept[n]), lists[i]) {
					return mc.Failf("list %d of %v is changed by reading later ones", n, seq)
				}
			}

			if source.Len() != 0 {
				return mc.Failf("%v: %d bytes left", seq, source.Len())
			}
		}

		return nil
	})

	type cut struct {
		Len    int    `json:"len"`
		Factor int    `json:"factor"`
		Kind   string `json:"kind"`
	}

	ends := map[string]error{"eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "injected": mc.ErrInjected}
	lengths := []int{0, 1, 2, 3, 4, 7, 8, 16, 100, 127, 128, 129, 254, 255}

	mc.Family(c, "lists.cuts", "tag id lists of 14 lengths: streams ending or failing at every byte, in every way, whole or byte by byte, one read failing there", func(yield func(cut) bool) {
		for _, n := range lengths {
			for _, factor := range []int{0, 37} {
				for _, kind := range []string{"eof", "unexpected", "injected"} {
					if !yield(cut{n, factor, kind}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k cut) error {
		values := filler(k.Len, k.Factor, 256)
		data := encodedList(values)

		for at := 0; at < len(data); at++ {
			for _, source := range []*mc.Reader{
				{Data: data[:at], End: ends[k.Kind]},
				{Data: data[:at], End: ends[k.Kind], Pieces: ones(at)},
				{Data: data[:at], End: ends[k.Kind], Joined: true},
				{Data: data, End: ends[k.Kind], Break: at + 1},
				{Data: data, End: ends[k.Kind], Break: at + 1, Pieces: ones(len(data))},
			} {
				for _, target := range []index.TagSet{nil, tagList(values)} {
					x.Evals(1, 1)

					if n, err := target.ReadFrom(source); err == nil {
						return mc.Failf("reading a list of %d from a stream ending (%s) after %d bytes: success, %d, %s", k.Len, k.Kind, at, n, short(ints(target)))
					}

					if source.Taken == len(data) {
						return mc.Failf("reading goes on after an error")
					}

					source = &mc.Reader{Data: data[:at], End: ends[k.Kind]}
				}
			}
		}

		return nil
	})

	mc.Family(c, "lists.pieces", "tag id lists of up to 8 (12) ids delivered in pieces of all sizes with an empty read at every place", func(yield func(int) bool) {
		for n := 0; n <= c.Pick(8, 12); n++ {
			if !yield(n) {
				return
			}
		}
	}, func(x *mc.X, n int) (err error) {
		values := filler(n, 37, 256)
		data := encodedList(values)

		mc.Compositions(len(data), func(p []int) bool {
			for gap := -1; gap < len(p); gap++ {
				q := append([]int{}, p...)
				if gap >= 0 {
					q = append(append(append([]int{}, p[:gap]...), 0), p[gap:]...)
				}

				x.Evals(1, 1)

				var target index.TagSet

				if k, e := target.ReadFrom(&mc.Reader{Data: data, Pieces: append([]int{}, q...)}); e != nil || int(k) != len(data) || !equalInts(ints(target), values) {
					err = mc.Failf("list %v in pieces %v: %d, %v, %v", values, q, k, e, ints(target))
					return false
				}
			}

			return !x.Expired()
		})

		return err
	})

	mc.Family(c, "lists.writers", "tag id lists of 14 lengths written to a destination failing at every byte, five ways; lists longer than 255", func(yield func(cut) bool) {
		for _, n := range lengths {
			for _, mode := range []string{"error", "refuse", "short", "once", "once-short"} {
				if !yield(cut{n, 37, mode}) {
					return
				}
			}
		}

		for _, n := range []int{256, 257, 258, 300, 383, 384, 511, 512, 513, 767, 768, 1000, 65535, 65536, 65537, 65791, 65792} {
			if !yield(cut{n, 37, "oversize"}) {
				return
			}
		}
	}, func(x *mc.X, k cut) error {
		values := filler(k.Len, k.Factor, 256)

		if k.Kind == "oversize" {
			x.Evals(1, 1)

			var buf bytes.Buffer

			if n, err := tagList(values).WriteTo(&buf); err == nil {
				return mc.Failf("a list of %d ids is written (%d bytes, %.8x...) without an error", k.Len, n, buf.Bytes())
			}

			return nil
		}

		data := encodedList(values)

		for at := 0; at <= len(data); at++ {
			x.Evals(1, 1)

			list := tagList(values)
			w := &mc.Writer{Limit: at, Mode: k.Kind}
			n, err := list.WriteTo(w)

			switch {
			case at < len(data) && err == nil:
				return mc.Failf("writing a list of %d to a destination failing (%s) after %d bytes reports success", k.Len, k.Kind, at)
			case at == len(data) && (err != nil || int(n) != at || !bytes.Equal(w.Data, data)):
				return mc.Failf("writing a list of %d to a destination of its size: %d, %v", k.Len, n, err)
			case !equalInts(ints(list), values):
				return mc.Failf("failed writing changes the list")
			}
		}

		return nil
	})
}

// eachWord yields all words of n letters.
func eachWord(letters []int, n int, yield func([]int) bool) (more bool) {
	more = true

	mc.Each(len(letters), n, func(w []int) bool {
		word := make([]int, n)
		for i := range w {
			word[i] = letters[w[i]]
		}

		more = yield(word)

		return more
	})

	return more
}

// ---- order, equality and membership

// sortable is one kind of list.
type sortable struct {
	name    string
	values  []int
	sort    func(v []int) []int
	equal   func(a, b []int) bool
	has     func(v []int, at int) bool
	compare func(v []int) error
}

func indexed(l interface {
	sort.Interface
}, v []int) error {
	if l.Len() != len(v) {
		return mc.Failf("length of %v is %d", v, l.Len())
	}

	for i := range v {
		for j := range v {
			if l.Less(i, j) != (v[i] < v[j]) {
				return mc.Failf("%v: element %d before %d: %v", v, i, j, l.Less(i, j))
			}
		}
	}

	return nil
}

func checkListOrder(c *mc.C) {
	big := []int{0, 1, 0x7fff, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffff0000, 0xffffffff}
	kinds := []sortable{
		{
			name: "tag ids", values: []int{0, 1, 2, 127, 128, 254, 255},
			sort:    func(v []int) []int { l := tagList(v); l.Sort(); return ints(l) },
			equal:   func(a, b []int) bool { return tagList(a).EqualTo(tagList(b)) },
			compare: func(v []int) error { return indexed(tagList(v), v) },
		},
		{
			name: "combinations", values: big,
			sort:    func(v []int) []int { l := combination(v); sort.Sort(l); return ints(l) },
			equal:   func(a, b []int) bool { return combination(a).EqualTo(combination(b)) },
			has:     func(v []int, at int) bool { return combination(v).Has(index.TagSetID(at)) },
			compare: func(v []int) error { return indexed(combination(v), v) },
		},
		{
			name: "combination ids", values: big,
			sort: func(v []int) []int {
				l := make(index.CollectionIDList, len(v))
				for i := range v {
					l[i] = index.VariantID(v[i])
				}

				sort.Sort(l)

				return ints(l)
			},
			has: func(v []int, at int) bool {
				l := make(index.CollectionIDList, len(v))
				for i := range v {
					l[i] = index.VariantID(v[i])
				}

				return l.Has(index.VariantID(at))
			},
			compare: func(v []int) error {
				l := make(index.CollectionIDList, len(v))
				for i := range v {
					l[i] = index.VariantID(v[i])
				}

				return indexed(l, v)
			},
		},
	}

	for _, k := range kinds {
		k := k
		depth := c.Pick(4, 6)

		if len(k.values) > 7 {
			depth = c.Pick(4, 5)
		}

		mc.Family(c, "order."+k.name, fmt.Sprintf("all lists of up to %d of %d boundary ids: order, sorting, membership of every id, equality with every list differing in one element or in length", depth, len(k.values)), func(yield func([]int) bool) {
			for n := 0; n <= depth; n++ {
				if !eachWord(k.values, n, yield) {
					return
				}
			}
		}, func(x *mc.X, v []int) error {
			x.Evals(1, 1)

			if err := k.compare(v); err != nil {
				return err
			}

			want := mc.Sorted(v)
			if got := k.sort(v); !equalInts(got, want) {
				return mc.Failf("sorting %v gives %v", v, got)
			}

			if k.has != nil {
				for _, at := range k.values {
					for _, id := range []int{at, at ^ 1, at ^ 0x10000, at ^ 0x80} {
						if has := k.has(v, id); has != contains(v, id) {
							return mc.Failf("%v has %#x: %v", v, id, has)
						}
					}
				}
			}

			if k.equal == nil {
				return nil
			}

			if !k.equal(v, v) {
				return mc.Failf("%v is not equal to itself", v)
			}

			for i := range v {
				for _, id := range k.values {
					other := append([]int{}, v...)
					other[i] = id

					if k.equal(v, other) != (id == v[i]) {
						return mc.Failf("%v equal to %v: %v", v, other, id != v[i])
					}
				}
			}

			for _, id := range k.values {
				longer := append(append([]int{}, v...), id)
				before := append([]int{id}, v...)

				if k.equal(v, longer) || k.equal(longer, v) || k.equal(v, before) || k.equal(before, v) {
					return mc.Failf("%v is equal to a longer list", v)
				}
			}

			return nil
		})
	}

	type sized struct {
		Len  int    `json:"len"`
		Kind string `json:"kind"`
	}

	mc.Family(c, "order.dense", "all pairs of 2-element lists over 0..63 and 3-element lists over 0..23; lists of every size to 128 and those with two elements changed such that simple digests stay the same", func(yield func(sized) bool) {
		for _, k := range kinds {
			for n := 2; k.equal != nil && n <= 128; n++ {
				if !yield(sized{n, k.name}) {
					return
				}
			}
		}
	}, func(x *mc.X, s sized) error {
		for _, k := range kinds {
			if k.name != s.Kind {
				continue
			}

			if limit := map[int]int{2: 64, 3: 24}[s.Len]; limit > 0 {
				var all [][]int

				mc.Combinations(firstIDs(limit, limit-1), s.Len, func(v []int) bool { all = append(all, append([]int{}, v...)); return true })
				x.Evals(len(all)*len(all), len(all)*len(all))

				for i, a := range all {
					for j, b := range all {
						if k.equal(a, b) != (i == j) {
							return mc.Failf("%v equal to %v: %v", a, b, i != j)
						}
					}
				}
			}

			base := mc.Spread(s.Len, k.values[len(k.values)-1])

			var problem error

			mc.Compensated(base, k.values[len(k.values)-1], func(v []int) bool {
				x.Evals(1, 1)

				if k.equal(base, v) || k.equal(v, base) {
					problem = mc.Failf("%v is equal to %v", base, v)
				}

				return problem == nil
			})

			if problem != nil {
				return problem
			}
		}

		return nil
	})

	mc.Family(c, "order.sizes", "every length to 300 in fixed orders: sorting, one element changed at every place", func(yield func(sized) bool) {
		for n := 0; n <= 300; n++ {
			for _, k := range kinds {
				if !yield(sized{n, k.name}) {
					return
				}
			}
		}
	}, func(x *mc.X, s sized) error {
		for _, k := range kinds {
			if k.name != s.Kind {
				continue
			}

			for _, factor := range []int{1, 37, 255} {
				v := filler(s.Len, factor, 256)

				x.Evals(1, 1)

				want := mc.Sorted(v)
				if got := k.sort(v); !equalInts(got, want) {
					return mc.Failf("sorting %s gives %s", short(v), short(got))
				}

				for i := 0; k.equal != nil && i < len(v); i++ {
					other := append([]int{}, want...)
					other[i] ^= 0x80

					if k.equal(want, other) || !k.equal(want, want) {
						return mc.Failf("lists of %d differing at %d", s.Len, i)
					}
				}

				for id := 0; k.has != nil && id < 256; id++ {
					if k.has(v, id) != contains(v, id) {
						return mc.Failf("%s has %d: %v", short(v), id, k.has(v, id))
					}
				}
			}
		}

		return nil
	})

	mc.Family(c, "order.following", "every position of tables of every size to 300 and of a large one", func(yield func(int) bool) {
		for n := 0; n <= 300; n++ {
			if !yield(n) {
				return
			}
		}

		_ = yield(3000)
	}, func(x *mc.X, n int) error {
		table := make(index.VariantsTable, n)

		for _, at := range append(upTo(n+2, 1+n/500), 0x7fff, 0x8000, 0xffff) {
			x.Evals(1, 1)

			got := table.Following(index.VariantSubID(at))

			for i, id := range got {
				if int(id) != at+1+i {
					return mc.Failf("table of %d: following %d: %v", n, at, got)
				}
			}

			if want := max(n-at-1, 0); len(got) != want {
				return mc.Failf("table of %d: %d positions following %d instead of %d", n, len(got), at, want)
			}
		}

		return nil
	})
}

func upTo(n, step int) (res []int) {
	for i := 0; i < n; i += step {
		res = append(res, i)
	}

	return res
}

func contains(v []int, id int) bool {
	for _, have := range v {
		if have == id {
			return true
		}
	}

	return false
}

// ---- parts one after another in one stream

// part is something written; read takes it back into the receiver given (of the same kind) and tells what was read.
type part struct {
	name  string
	kind  string
	write func(w *binutils.BinaryWriter) error
	want  string
}

func nodeList(children ...[2]int) *index.Items {
	items := index.NewItems()
	for _, child := range children {
		items.NewChild(dag.ID(child[0]), rune(child[1]))
	}

	return items
}

func listed(items *index.Items) string {
	res := fmt.Sprint(items.NextID())
	for id := dag.ID(0); id <= items.NextID()+1; id++ {
		if item := items.Get(id); item == nil {
			res += ";none"
		} else {
			res += fmt.Sprintf(";%+v", *item)
		}
	}

	return res
}

func parts() (res []part) {
	add := func(kind, name, want string, write func(w *binutils.BinaryWriter) error) {
		res = append(res, part{kind + " " + name, kind, write, want})
	}

	edge := []int{0, 1, 255, 256, 0x10000, 0x7fffffff}
	for i, v := range edge {
		item := &index.Item{Parent: dag.ID(v), ID: dag.ID(edge[(i+1)%6]), Letter: rune(edge[(i+2)%6]), Variants: index.VariantID(uint32(0xffffffff - v))}
		add("node", fmt.Sprint(i), fmt.Sprintf("%+v", *item), item.BinaryWriteTo)
	}

	for i, items := range []*index.Items{nodeList(), nodeList([2]int{0, 'a'}), nodeList([2]int{0, 'я'}, [2]int{1, 0x1F600}, [2]int{0, 0}, [2]int{3, 0x10ffff})} {
		add("nodes", fmt.Sprint(i), listed(items), items.BinaryWriteTo)
	}

	var (
		tags  []index.TagSet
		combs []index.TagSetIDCollection
	)

	for _, v := range [][]int{{}, {0}, {255, 3, 255}, filler(255, 37, 256)} {
		tags = append(tags, tagList(v))
		add("tag ids", fmt.Sprint(len(v)), fmt.Sprint(v), tags[len(tags)-1].BinaryWriteTo)

		large := append([]int{}, v...)
		for i := range large {
			large[i] *= 0x01010101
		}

		combs = append(combs, combination(large))
		add("combination", fmt.Sprint(len(v)), fmt.Sprint(large), combs[len(combs)-1].BinaryWriteTo)
	}

	for n := 0; n <= 4; n += 2 {
		table := index.TagSetTable(tags[:n])
		add("tag set table", fmt.Sprint(n), fmt.Sprint(len(table), [][]int{ints(tags[0]), ints(tags[1]), ints(tags[2]), ints(tags[3])}[:n]), table.BinaryWriteTo)

		variants := index.VariantsTable(combs[:n])
		add("combination table", fmt.Sprint(n), fmt.Sprint(len(variants), [][]int{ints(combs[0]), ints(combs[1]), ints(combs[2]), ints(combs[3])}[:n]), variants.BinaryWriteTo)
	}

	return res
}

// receivers are what parts are read into.
type receivers struct {
	item     index.Item
	items    *index.Items
	tags     index.TagSet
	comb     index.TagSetIDCollection
	table    index.TagSetTable
	variants index.VariantsTable
}

func (r *receivers) read(kind string, reader *binutils.BinaryReader) (got string, err error) {
	switch kind {
	case "node":
		err = r.item.BinaryReadFrom(reader)
		got = fmt.Sprintf("%+v", r.item)
	case "nodes":
		err = r.items.BinaryReadFrom(reader)
		got = listed(r.items)
	case "tag ids":
		err = r.tags.BinaryReadFrom(reader)
		got = fmt.Sprint(ints(r.tags))
	case "combination":
		err = r.comb.BinaryReadFrom(reader)
		got = fmt.Sprint(ints(r.comb))
	case "tag set table":
		err = r.table.BinaryReadFrom(reader)

		all := make([][]int, len(r.table))
		for i := range all {
			all[i] = ints(r.table[i])
		}

		got = fmt.Sprint(len(all), all)
	case "combination table":
		err = r.variants.BinaryReadFrom(reader)

		all := make([][]int, len(r.variants))
		for i := range all {
			all[i] = ints(r.variants[i])
		}

		got = fmt.Sprint(len(all), all)
	}

	return got, err
}

func checkParts(c *mc.C) {
	all := parts()
	depth := c.Pick(3, 4)

	mc.Family(c, "parts", fmt.Sprintf("all sequences of up to %d out of %d nodes, node lists, tag id lists, combinations and tables in one stream, read into the same and into new receivers", depth, len(all)), func(yield func([]int) bool) {
		for n := 1; n <= depth; n++ {
			if !eachWord(upTo(len(all), 1), n, yield) {
				return
			}
		}
	}, func(x *mc.X, seq []int) error {
		var buf bytes.Buffer

		writer := binutils.NewBinaryWriter(&buf)

		for _, i := range seq {
			if err := all[i].write(writer); err != nil {
				return mc.Failf("writing %s: %v", all[i].name, err)
			}
		}

		buf.WriteString("tail")

		for _, again := range []bool{true, false} {
			x.Evals(1, 1)

			source := bytes.NewReader(buf.Bytes())
			reader := binutils.NewBinaryReader(source)
			r := &receivers{items: index.NewItems()}

			for n, i := range seq {
				if !again {
					r = &receivers{items: index.NewItems()}
				}

				got, err := r.read(all[i].kind, reader)
				if err != nil || got != all[i].want {
					return mc.Failf("reading %s (part %d of %v): %.300s instead of %.300s (%v)", all[i].name, n, seq, got, all[i].want, err)
				}
			}

			if source.Len() != 4 {
				return mc.Failf("after reading %v %d bytes are left instead of 4", seq, source.Len())
			}
		}

		return nil
	})

	edge := []int{0, 1, 127, 128, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff}

	mc.Family(c, "nodes.values", "all nodes of 11 boundary numbers", func(yield func([]int) bool) {
		eachWord(edge, 4, yield)
	}, func(x *mc.X, v []int) error {
		x.Evals(1, 1)

		item, back := index.Item{Parent: dag.ID(v[0]), ID: dag.ID(v[1]), Letter: rune(int32(uint32(v[2]))), Variants: index.VariantID(v[3])}, index.Item{Parent: 7, ID: 7, Letter: 7, Variants: 7}
		if err := throughBytes(item.BinaryWriteTo, back.BinaryReadFrom); err != nil {
			return mc.Failf("node %+v: %v", item, err)
		}

		if back != item {
			return mc.Failf("node %+v is read as %+v", item, back)
		}

		return nil
	})

	mc.Family(c, "parts.oversize", "lists longer than their length fields", func(yield func(int) bool) {
		for _, n := range []int{256, 257, 300, 511, 512, 513, 768, 65535, 65536, 65537, 65792, 131072} {
			if !yield(n) {
				return
			}
		}
	}, func(x *mc.X, n int) error {
		x.Evals(3, 3)

		if err := tagList(filler(n, 37, 256)).BinaryWriteTo(binutils.NewBinaryWriter(io.Discard)); err == nil {
			return mc.Failf("a list of %d tag ids is written", n)
		}

		if err := combination(filler(n, 37, 256)).BinaryWriteTo(binutils.NewBinaryWriter(io.Discard)); err == nil {
			return mc.Failf("a combination of %d tag sets is written", n)
		}

		table := make(index.TagSetTable, n)
		if err := table.BinaryWriteTo(binutils.NewBinaryWriter(io.Discard)); (err == nil) != (n <= 0xffff) {
			return mc.Failf("a table of %d tag sets: %v", n, err)
		}

		return nil
	})
}

// ---- the node list

// nodes drives a node list in lockstep with a plain slice.
type nodes struct {
	impl *index.Items
	ref  []index.Item
}

func (n *nodes) child(parent int, letter rune) error {
	want := index.Item{Parent: dag.ID(parent), ID: dag.ID(len(n.ref) + 1), Letter: letter}

	got := n.impl.NewChild(dag.ID(parent), letter)
	if got != want {
		return mc.Failf("new node %+v instead of %+v", got, want)
	}

	n.ref = append(n.ref, want)

	return nil
}

func (n *nodes) sweep() error {
	if int(n.impl.NextID()) != len(n.ref)+1 {
		return mc.Failf("next id %d with %d nodes", n.impl.NextID(), len(n.ref))
	}

	for i, want := range n.ref {
		got := n.impl.Get(dag.ID(i + 1))
		if got == nil || *got != want {
			return mc.Failf("node %d is %+v instead of %+v", i+1, got, want)
		}
	}

	for _, id := range []int{0, len(n.ref) + 1, len(n.ref) + 2, len(n.ref) + 64, 0x7fffffff, 0xffffffff} {
		if got := n.impl.Get(dag.ID(id)); got != nil {
			return mc.Failf("node %d of %d is %+v", id, len(n.ref), *got)
		}
	}

	return nil
}

func (n *nodes) reload(target *index.Items) error {
	err := throughBytes(n.impl.BinaryWriteTo, target.BinaryReadFrom)
	n.impl = target

	return err
}

func checkNodeList(c *mc.C) {
	used := func() *index.Items {
		items := index.NewItems()
		for i := 0; i < 70; i++ {
			items.NewChild(dag.ID(i), 'x')
		}

		return items
	}

	ops := []struct {
		name string
		run  func(n *nodes) error
	}{
		{"child of the root", func(n *nodes) error { return n.child(0, 'a') }},
		{"child of the last", func(n *nodes) error { return n.child(len(n.ref), 0x1F600) }},
		{"extend by 1", func(n *nodes) error { n.impl.Extend(1); return nil }},
		{"extend by 3", func(n *nodes) error { n.impl.Extend(3); return nil }},
		{"combination of the last", func(n *nodes) error {
			if len(n.ref) > 0 {
				n.impl.Get(dag.ID(len(n.ref))).Variants = index.VariantID(0x10000 + len(n.ref))
				n.ref[len(n.ref)-1].Variants = index.VariantID(0x10000 + len(n.ref))
			}

			return nil
		}},
		{"save and load", func(n *nodes) error { return n.reload(index.NewItems()) }},
		{"save and load over others", func(n *nodes) error { return n.reload(used()) }},
	}

	names := make([]string, len(ops))
	for i := range ops {
		names[i] = ops[i].name
	}

	mc.Sequences(c, mc.Lockstep[*nodes]{
		Name: "nodes", Ops: names,
		New: func() *nodes { return &nodes{impl: index.NewItems()} },
		Key: func(n *nodes) string { return fmt.Sprint(n.ref) },
		Step: func(n *nodes, op int) error {
			if err := ops[op].run(n); err != nil {
				return err
			}

			return n.sweep()
		},
	}, c.Pick(6, 8))

	mc.Family(c, "nodes.growth", "node lists growing to 600 (5000) nodes, saved and loaded at every size or never", func(yield func(bool) bool) {
		_ = yield(false) && yield(true)
	}, func(x *mc.X, reload bool) error {
		n := &nodes{impl: index.NewItems()}

		for i := 0; i < c.Pick(600, 5000); i++ {
			x.Evals(1, 1)

			if err := n.child(i/2, rune(i)); err != nil {
				return err
			}

			if reload {
				if err := n.reload(index.NewItems()); err != nil {
					return err
				}
			}

			if err := n.sweep(); err != nil {
				return err
			}
		}

		return nil
	})
}

// ---- resolving

func checkResolving(c *mc.C) {
	type known struct {
		Tags int   `json:"tags"`
		List []int `json:"list"`
	}

	depth := c.Pick(3, 4)

	mc.Family(c, "resolving", fmt.Sprintf("all lists of up to %d tag ids around the number of tags known (0..4, 128, 254..256), longer ones with one unknown id at every place", depth), func(yield func(known) bool) {
		for _, n := range []int{0, 1, 2, 3, 4, 128, 254, 255, 256} {
			letters := []int{0, 1, 2, 3, 4, 127, 128, 129, 253, 254, 255}

			for size := 0; size <= depth; size++ {
				if !eachWord(letters, size, func(v []int) bool { return yield(known{n, v}) }) {
					return
				}
			}

			for _, size := range []int{10, 100, 255, 300} {
				for at := -1; at < size; at++ {
					v := filler(size, 7, max(n, 1))
					if at >= 0 {
						v[at] = min(n, 255)
					}

					if !yield(known{n, v}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k known) error {
		x.Evals(1, 1)

		ix := index.New()
		name := func(i int) dag.TagName { return dag.TagName(fmt.Sprintf("T%03d", i)) }

		for i := 0; i < k.Tags; i++ {
			ix.TagID(name(i), name(i/2))
		}

		fails := false
		for _, id := range k.List {
			fails = fails || id >= k.Tags
		}

		list := tagList(k.List)
		got, err := ix.TagSet(list)

		switch {
		case fails != (err != nil):
			return mc.Failf("%d tags: resolving %s: %v", k.Tags, short(k.List), err)
		case !equalInts(ints(list), k.List):
			return mc.Failf("resolving %s changes it", short(k.List))
		case fails:
			return nil
		case len(got) != len(k.List):
			return mc.Failf("%d tags: resolving %s gives %d tags", k.Tags, short(k.List), len(got))
		}

		for i, id := range k.List {
			if got[i].Name != name(id) || got[i].Parent != name(id/2) {
				return mc.Failf("%d tags: resolving %s gives %+v for %d", k.Tags, short(k.List), got[i], id)
			}
		}

		return nil
	})
}
