//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

// store is one of the stores of sets: of tag ids or of tag set ids.
type store interface {
	Put(values []int) int                // get or make id; scribbles over the slice it passed
	Find(values []int) (int, bool)       // values are sorted
	Get(id int) (values []int, ok bool)  // stored set
	IDs() []int                          // all known ids, nil if the store has no such list
	Reload() error                       // write and read
	Want(size, pos int) int              // expected id
	Grouped() bool                       // ids depend on the size
	Unknown(size int, n int) (ids []int) // ids Get has to answer as not found
}

// scribbled is a slice of values to pass, overwritten when done. With a buffer it is taken from there, as a caller with
// a single buffer does.
func scribbled[T ~uint8 | ~uint32](values []int, buffer ...*[]T) (in []T, done func()) {
	if len(buffer) == 0 {
		in = make([]T, len(values), len(values)+2)
	} else {
		if cap(*buffer[0]) < len(values)+2 {
			*buffer[0] = make([]T, len(values)+8)
		}

		in = (*buffer[0])[:len(values)]
	}

	for i, v := range values {
		in[i] = T(v)
	}

	return in, func() {
		full := in[:cap(in)]
		for i := range full {
			full[i] = 0x5a
		}
	}
}

func ints[T ~uint8 | ~uint32](in []T) []int {
	res := make([]int, len(in))
	for i, v := range in {
		res[i] = int(v)
	}

	return res
}

func throughBytes(write func(w *binutils.BinaryWriter) error, read func(r *binutils.BinaryReader) error) error {
	var buf bytes.Buffer

	if err := write(binutils.NewBinaryWriter(&buf)); err != nil {
		return mc.Failf("writing: %v", err)
	}

	buf.WriteString("tail")

	if err := read(binutils.NewBinaryReader(&buf)); err != nil {
		return mc.Failf("reading: %v", err)
	}

	if buf.String() != "tail" {
		return mc.Failf("reading leaves %q instead of the data following", buf.String())
	}

	return nil
}

type tagSetTable struct {
	t   index.TagSetTable
	buf []dag.TagID
}

func (s *tagSetTable) Put(values []int) int {
	in, done := scribbled[dag.TagID](values, &s.buf)
	defer done()

	return int(s.t.Index(in))
}

func (s *tagSetTable) Find(values []int) (int, bool) {
	in, done := scribbled[dag.TagID](values)
	defer done()

	id, ok := s.t.Find(in)

	return int(id), ok
}

func (s *tagSetTable) Get(id int) ([]int, bool) {
	v, ok := s.t.Get(index.TagSetSubID(id))

	return ints(v), ok
}

func (s *tagSetTable) IDs() []int { return nil }

func (s *tagSetTable) Reload() error {
	var t index.TagSetTable

	err := throughBytes(s.t.BinaryWriteTo, t.BinaryReadFrom)
	s.t = t

	return err
}
func (s *tagSetTable) Want(_, pos int) int { return pos }
func (s *tagSetTable) Grouped() bool       { return false }
func (s *tagSetTable) Unknown(_ int, n int) []int {
	return []int{n, n + 1, 0x7fff, 0x8000, 0xffff}
}

type tagSetIndex struct {
	t   index.TagSetIndex
	buf []dag.TagID
}

func (s *tagSetIndex) Put(values []int) int {
	in, done := scribbled[dag.TagID](values, &s.buf)
	defer done()

	return int(s.t.Index(in))
}

func (s *tagSetIndex) Find(values []int) (int, bool) {
	in, done := scribbled[dag.TagID](values)
	defer done()

	id, ok := s.t.Find(in)

	return int(id), ok
}

func (s *tagSetIndex) Get(id int) ([]int, bool) {
	v, ok := s.t.Get(index.TagSetID(id))

	return ints(v), ok
}

func (s *tagSetIndex) IDs() []int {
	res := ints(s.t.TableIDs())
	if len(res) != s.t.Size() {
		return append(res, -1)
	}

	return res
}

func (s *tagSetIndex) Reload() error {
	var t index.TagSetIndex

	err := throughBytes(s.t.BinaryWriteTo, t.BinaryReadFrom)
	s.t = t

	return err
}
func (s *tagSetIndex) Want(size, pos int) int { return (size-1)<<16 | pos }
func (s *tagSetIndex) Grouped() bool          { return true }
func (s *tagSetIndex) Unknown(size int, n int) []int {
	up := (size - 1) << 16

	return []int{up | n, up | (n + 1), up | 0xffff, up | 0x8000}
}

type variantsTable struct {
	t   index.VariantsTable
	buf []index.TagSetID
}

func (s *variantsTable) Put(values []int) int {
	in, done := scribbled[index.TagSetID](values, &s.buf)
	defer done()

	return int(s.t.Index(in))
}

func (s *variantsTable) Find(values []int) (int, bool) {
	in, done := scribbled[index.TagSetID](values)
	defer done()

	id, ok := s.t.Find(in)

	return int(id), ok
}

func (s *variantsTable) Get(id int) ([]int, bool) {
	if id >= len(s.t) {
		return nil, false
	}

	return ints(s.t.Get(index.VariantSubID(id))), true
}
func (s *variantsTable) IDs() []int { return nil }

func (s *variantsTable) Reload() error {
	var t index.VariantsTable

	err := throughBytes(s.t.BinaryWriteTo, t.BinaryReadFrom)
	s.t = t

	return err
}
func (s *variantsTable) Want(_, pos int) int        { return pos }
func (s *variantsTable) Grouped() bool              { return false }
func (s *variantsTable) Unknown(_ int, _ int) []int { return nil }

type variantsIndex struct {
	t   index.VariantsIndex
	buf []index.TagSetID
}

func (s *variantsIndex) Put(values []int) int {
	in, done := scribbled[index.TagSetID](values, &s.buf)
	defer done()

	return int(s.t.Index(in))
}

func (s *variantsIndex) Find(values []int) (int, bool) {
	in, done := scribbled[index.TagSetID](values)
	defer done()

	id, ok := s.t.Find(in)

	return int(id), ok
}

func (s *variantsIndex) Get(id int) ([]int, bool) {
	return ints(s.t.Get(index.VariantID(id))), true
}

func (s *variantsIndex) IDs() []int { return ints(s.t.KnownID()) }

func (s *variantsIndex) Reload() error {
	var t index.VariantsIndex

	err := throughBytes(s.t.BinaryWriteTo, t.BinaryReadFrom)
	s.t = t

	return err
}
func (s *variantsIndex) Want(size, pos int) int     { return size<<16 | pos }
func (s *variantsIndex) Grouped() bool              { return true }
func (s *variantsIndex) Unknown(_ int, _ int) []int { return nil }

func newStore(name string) store {
	switch name {
	case "tag sets table":
		return &tagSetTable{}
	case "tag sets":
		return &tagSetIndex{t: make(index.TagSetIndex, 0)}
	case "combinations table":
		return &variantsTable{}
	default:
		return &variantsIndex{t: make(index.VariantsIndex, 0)}
	}
}

// shelf drives a store in lockstep with its reference: lists of sorted sets by size in order of first submission.
type shelf struct {
	name string
	impl store
	sets map[int][][]int
	ids  map[string]int
}

func newShelf(name string) *shelf {
	return &shelf{name: name, impl: newStore(name), sets: map[int][][]int{}, ids: map[string]int{}}
}

func (s *shelf) group(size int) int {
	if s.impl.Grouped() {
		return size
	}

	return 0
}

func (s *shelf) put(values []int) error {
	sorted := append([]int{}, values...)
	sort.Ints(sorted)

	k := fmt.Sprint(sorted)

	want, ok := s.ids[k]
	if !ok {
		g := s.group(len(values))
		want = s.impl.Want(len(values), len(s.sets[g]))
		s.sets[g] = append(s.sets[g], sorted)
		s.ids[k] = want
	}

	if got := s.impl.Put(values); got != want {
		return mc.Failf("%v gets id %#x, expected %#x (known before: %v)", values, got, want, ok)
	}

	return nil
}

func (s *shelf) find(sorted []int) error {
	if len(sorted) == 0 {
		id, ok := s.impl.Find(sorted)
		if id != 0 || ok && s.name != "combinations" {
			return mc.Failf("empty set is found as %#x, %v", id, ok)
		}

		return nil
	}

	want, ok := s.ids[fmt.Sprint(sorted)]
	got, found := s.impl.Find(sorted)

	if found != ok || ok && got != want {
		return mc.Failf("%v is found as %#x, %v, expected %#x, %v", sorted, got, found, want, ok)
	}

	return nil
}

func (s *shelf) get(size, pos int) error {
	g := s.group(size)
	if pos >= len(s.sets[g]) {
		return nil
	}

	set := s.sets[g][pos]
	got, ok := s.impl.Get(s.ids[fmt.Sprint(set)])

	if !ok || fmt.Sprint(got) != fmt.Sprint(set) {
		return mc.Failf("id %#x gives %v, %v, expected %v", s.ids[fmt.Sprint(set)], got, ok, set)
	}

	return nil
}

// sweep compares everything.
func (s *shelf) sweep(domain [][]int) error {
	total := 0

	for g, list := range s.sets {
		for pos, set := range list {
			if err := s.get(g, pos); err != nil {
				return err
			}

			if err := s.find(set); err != nil {
				return err
			}

			total++
		}

		size := g
		if g == 0 {
			size = len(list[0])
		}

		for _, id := range s.impl.Unknown(size, len(list)) {
			if got, ok := s.impl.Get(id); ok {
				return mc.Failf("unknown id %#x gives %v", id, got)
			}
		}
	}

	for _, set := range domain {
		if err := s.find(set); err != nil {
			return err
		}
	}

	ids := s.impl.IDs()
	if !s.impl.Grouped() {
		return nil
	}

	seen := map[int]bool{}
	for _, id := range ids {
		seen[id] = true
	}

	if len(ids) != total || len(seen) != total {
		return mc.Failf("known ids are %x, %d sets are stored", ids, total)
	}

	for k, id := range s.ids {
		if !seen[id] {
			return mc.Failf("known ids are %x without %#x of %s", ids, id, k)
		}
	}

	if s.name == "tag sets" {
		for size := 1; size < 7; size++ {
			if len(s.sets[size]) == 0 {
				for _, id := range []int{(size - 1) << 16, (size-1)<<16 | 1, (size-1)<<16 | 0xffff} {
					if got, ok := s.impl.Get(id); ok {
						return mc.Failf("unknown id %#x gives %v", id, got)
					}
				}
			}
		}

		for _, id := range []int{0x00ff0000, 0x7fff0000, 0x80000000, 0xffff0000, 0xffffffff} {
			if got, ok := s.impl.Get(id); ok {
				return mc.Failf("unknown id %#x gives %v", id, got)
			}
		}
	}

	if s.name == "combinations" {
		for _, id := range []int{0, 1, 0xffff} {
			if got, _ := s.impl.Get(id); len(got) > 0 {
				return mc.Failf("no combination %#x gives %v", id, got)
			}
		}
	}

	return nil
}

func (s *shelf) state() string { return fmt.Sprint(s.name, s.sets) }

func checkStores(c *mc.C) {
	c.Rule("Lockstep of the four real stores (table of tag sets, tag sets, table of combinations, combinations) with reference lists: all sequences of submissions " +
		"in different element orders, searches, fetches and write/read up to a depth, all subsets and orders of sets over boundary ids, every set size, fill sweeps; " +
		"all unions of small combinations with every id; every id of an index holding words. Slices given to a store are overwritten afterwards.")
	c.Assume("searches are made with sorted sets, as documented; sets of one table have equal lengths, as documented; an empty list is not submitted to a table")

	for _, name := range []string{"tag sets table", "tag sets", "combinations table", "combinations"} {
		top, mid := 0xffffffff, 0x10000
		if strings.HasPrefix(name, "tag sets") {
			top, mid = 0xff, 0x80
		}

		grouped := newStore(name).Grouped()

		subs := [][]int{{0, 1}, {1, 0}, {top, 0}, {mid, 1}, {2, 1}, {1, mid}}
		finds := [][]int{{0, 1}, {1, 2}, {0, top}, {3, 4}}

		if grouped {
			subs = [][]int{{0}, {top}, {0, 1}, {1, 0}, {mid, 1, 0}, {0, 1, mid}, {}, {4, 3, 2, 1, 0}}
			finds = [][]int{{0}, {1}, {0, 1}, {0, 1, mid}, {}, {0, 1, 2, 3, 4, 5, 6, 7}}
		}

		var ops []string

		var run []func(s *shelf) error

		for _, v := range subs {
			if len(v) == 0 {
				ops = append(ops, "index empty")
				run = append(run, func(s *shelf) error {
					if got := s.impl.Put(nil); got != 0 {
						return mc.Failf("empty set gets id %#x", got)
					}

					return nil
				})

				continue
			}

			ops = append(ops, fmt.Sprint("index ", v))
			run = append(run, func(s *shelf) error { return s.put(v) })
		}

		for _, v := range finds {
			ops = append(ops, fmt.Sprint("find ", v))
			run = append(run, func(s *shelf) error { return s.find(v) })
		}

		for _, size := range []int{1, 2} {
			ops = append(ops, fmt.Sprint("get first of ", size))
			run = append(run, func(s *shelf) error { return s.get(s.group(size), 0) })
		}

		ops = append(ops, "write and read")
		run = append(run, func(s *shelf) error { return s.impl.Reload() })

		l := mc.Lockstep[*shelf]{
			Name: name + ".final", Ops: ops,
			New:   func() *shelf { return newShelf(name) },
			Step:  func(s *shelf, op int) error { return run[op](s) },
			Final: func(s *shelf) error { return s.sweep(finds) },
			Key:   func(s *shelf) string { return s.state() },
		}
		mc.Sequences(c, l, c.Pick(4, 5))

		swept := l
		swept.Name = name + ".swept"
		swept.Final = nil
		swept.Step = func(s *shelf, op int) error {
			if err := run[op](s); err != nil {
				return err
			}

			return s.sweep(finds)
		}
		mc.Sequences(c, swept, c.Pick(4, 5))

		// all pairs and all subsets of sets over boundary ids
		values := []int{0, 1, 2, 127, 128, 255}
		if top > 255 {
			values = []int{0, 1, 255, 256, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff}
		}

		var sets [][]int

		sizes := []int{2}
		if grouped {
			sizes = []int{1, 2, 3}
		}

		for _, size := range sizes {
			mc.Combinations(values, size, func(v []int) bool {
				sets = append(sets, v)
				return true
			})
		}

		type group struct {
			Sets [][]int `json:"sets"`
		}

		runGroup := func(x *mc.X, p group) error {
			s := newShelf(name)

			for i, set := range p.Sets {
				v := append([]int{}, set...)
				if i%2 == 0 {
					sort.Sort(sort.Reverse(sort.IntSlice(v)))
				}

				if err := s.put(v); err != nil {
					return err
				}
			}

			if err := s.sweep(p.Sets); err != nil {
				return err
			}

			for _, set := range p.Sets {
				if err := s.put(append([]int{}, set...)); err != nil {
					return mc.Failf("again: %v", err)
				}
			}

			if err := s.impl.Reload(); err != nil {
				return err
			}

			if err := s.sweep(nil); err != nil {
				return mc.Failf("after writing and reading: %v", err)
			}

			for _, set := range p.Sets {
				if err := s.put(append([]int{}, set...)); err != nil {
					return mc.Failf("after writing and reading: %v", err)
				}
			}

			x.Trans(3*len(p.Sets) + 1)
			x.Trace(1)
			x.Evals(1, 1)
			x.State(s.state())

			return s.sweep(nil)
		}

		mc.Family(c, name+".pairs", fmt.Sprintf("all ordered pairs of %d sets over %d boundary ids", len(sets), len(values)), func(yield func(group) bool) {
			for _, a := range sets {
				for _, b := range sets {
					if !yield(group{[][]int{a, b}}) {
						return
					}
				}
			}
		}, runGroup)

		wideRun, deepRun := c.Pick(5, 6), c.Pick(4, 5)
		mc.Family(c, name+".repeated", fmt.Sprintf("lists of up to %d ids, repeated ones included, over 5 domains of %d ids: all pairs, and all of them in one store", deepRun, wideRun), func(yield func(group) bool) {
			for _, d := range [][2]int{{0, 1}, {5, 1}, {mid - 2, 1}, {top - wideRun + 1, 1}, {1, top / (wideRun + 1)}} {
				var all [][]int

				for size := 1; size <= deepRun; size++ {
					var of [][]int

					var rec func(at []int, from int)

					rec = func(at []int, from int) {
						if len(at) == size {
							of = append(of, append([]int(nil), at...))

							return
						}

						for i := from; i < wideRun; i++ {
							rec(append(at[:len(at):len(at)], d[0]+i*d[1]), i)
						}
					}
					rec(nil, 0)

					if !yield(group{of}) {
						return
					}

					for _, a := range of {
						for _, b := range of {
							if !yield(group{[][]int{a, b}}) {
								return
							}
						}
					}

					all = append(all, of...)
				}

				if grouped && !yield(group{all}) {
					return
				}
			}
		}, runGroup)

		mc.Family(c, name+".dense", "all 2-element sets over 0..63 and 3-element sets over 0..23 in one store; sets of every size to 64 and those with two elements changed such that simple digests stay the same", func(yield func(group) bool) {
			for _, k := range [][2]int{{2, 64}, {3, 24}} {
				var all [][]int

				mc.Combinations(firstIDs(k[1], k[1]-1), k[0], func(v []int) bool { all = append(all, append([]int{}, v...)); return true })

				if !yield(group{all}) {
					return
				}
			}

			for n := 2; n <= c.Pick(64, 128); n++ {
				base := mc.Spread(n, top)
				all := [][]int{base}
				more := true

				mc.Compensated(base, top, func(v []int) bool {
					if all = append(all, v); len(all) == 400 {
						more = yield(group{all})
						all = [][]int{base}
					}

					return more
				})

				if !more || len(all) > 1 && !yield(group{all}) {
					return
				}
			}
		}, runGroup)

		if len(sets) > 12 {
			sets = sets[:12]
		}

		mc.Family(c, name+".subsets", fmt.Sprintf("all subsets of %d sets, in order and in reverse", len(sets)), func(yield func(group) bool) {
			for mask := 1; mask < 1<<len(sets); mask++ {
				var in, back [][]int

				for i, set := range sets {
					if mask&(1<<i) != 0 {
						in = append(in, set)
						back = append([][]int{set}, back...)
					}
				}

				if !yield(group{in}) || !yield(group{back}) {
					return
				}
			}
		}, runGroup)

		type sweep struct {
			Size  int    `json:"size"`
			Count int    `json:"count"`
			Order string `json:"order"`
		}

		var sweeps []sweep

		for size := 1; size <= 255; size++ {
			for _, order := range []string{"ascending", "descending", "rotated"} {
				sweeps = append(sweeps, sweep{size, 5, order})
			}
		}

		for count := 1; count <= 300; count++ {
			sweeps = append(sweeps, sweep{2, count, "descending"}, sweep{3, count, "ascending"})
		}

		for _, count := range []int{1000, 10000, c.Pick(20000, 65000)} {
			sweeps = append(sweeps, sweep{3, count, "rotated"})
		}

		mc.Family(c, name+".sizes", "every set size 1..255 with sets differing in one element, every number of sets, 3 element orders, written and read", func(yield func(sweep) bool) {
			for _, p := range sweeps {
				if !yield(p) {
					return
				}
			}
		}, func(x *mc.X, p sweep) error {
			s := newShelf(name)

			arrange := func(v []int) []int {
				v = append([]int{}, v...)

				switch p.Order {
				case "descending":
					sort.Sort(sort.Reverse(sort.IntSlice(v)))
				case "rotated":
					v = append(v[len(v)/2:], v[:len(v)/2]...)
				}

				return v
			}

			var in [][]int

			if p.Count == 5 {
				// all but one, for several omitted ones
				for _, omitted := range []int{0, 1, p.Size / 2, p.Size - 1, p.Size} {
					var v []int

					for i := 0; i <= p.Size; i++ {
						if i != omitted {
							v = append(v, i*(top/256))
						}
					}

					in = append(in, v)
				}
			} else {
				mc.Combinations(firstIDs(256, top), p.Size, func(v []int) bool {
					in = append(in, v)
					return len(in) < p.Count
				})
			}

			for _, v := range in {
				if err := s.put(arrange(v)); err != nil {
					return err
				}
			}

			if p.Count <= 1000 {
				if err := s.sweep(nil); err != nil {
					return err
				}
			}

			if err := s.impl.Reload(); err != nil {
				return err
			}

			x.Trans(len(in))
			x.Trace(1)
			x.Evals(1, 1)
			x.State(fmt.Sprint(name, p))

			for i, v := range in {
				if p.Count > 1000 && i%97 > 0 && i%256 > 1 {
					continue
				}

				if err := s.put(v); err != nil {
					return mc.Failf("after writing and reading: %v", err)
				}
			}

			if p.Count <= 1000 {
				return s.sweep(nil)
			}

			for pos := range in {
				if err := s.get(s.group(p.Size), pos); err != nil {
					return err
				}
			}

			return nil
		})

		type over struct {
			N int `json:"n"`
		}

		mc.Family(c, name+".full", "a table holding all 65536 ids of a size, and more", func(yield func(over) bool) {
			yield(over{65536})
		}, func(x *mc.X, p over) error {
			s := newShelf(name)

			var in [][]int

			mc.Combinations(firstIDs(256, top), 3, func(v []int) bool {
				in = append(in, v)
				return len(in) < p.N+3
			})

			for _, v := range in[:p.N] {
				if err := s.put(append([]int{}, v...)); err != nil {
					return err
				}
			}

			for _, v := range in[p.N:] {
				if id, ok := s.tryPut(v); ok {
					return mc.Failf("set %v beyond the last id gets id %#x", v, id)
				}
			}

			x.Trans(len(in))
			x.Trace(1)
			x.Evals(len(in), len(in))

			for pos := range in[:p.N] {
				if err := s.get(s.group(3), pos); err != nil {
					return err
				}
			}

			for _, at := range []int{0, 255, 256, 32767, 32768, 65535} {
				if err := s.put(append([]int{}, in[at]...)); err != nil {
					return err
				}
			}

			return nil
		})
	}

	checkIDParts(c)
	checkUnions(c)
	checkEveryID(c)
}

// tryPut submits a set which may be refused by a panic.
func (s *shelf) tryPut(v []int) (id int, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()

	return s.impl.Put(append([]int{}, v...)), true
}

func firstIDs(n, top int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i * (top / (n - 1))
	}

	return res
}

func checkIDParts(c *mc.C) {
	type upper struct {
		Upper int `json:"upper"`
	}

	boundary := []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff}

	mc.Family(c, "ids", "all pairs of a 16-bit half and 20 boundary values of the other one (all 2^32 pairs in the thorough tier)", func(yield func(upper) bool) {
		for u := 0; u < 0x10000; u++ {
			if !yield(upper{u}) {
				return
			}
		}
	}, func(x *mc.X, p upper) error {
		one := func(up, low int) error {
			id := index.TagSetTableNumber(up).TagSetID(index.TagSetSubID(low))
			if int(id) != up<<16|low || int(id.TagSetTableNumber()) != up || int(id.TagSetSubID()) != low {
				return mc.Failf("tag set id of %#x, %#x is %#x with parts %#x, %#x", up, low, id, id.TagSetTableNumber(), id.TagSetSubID())
			}

			v := index.CollectionTableNumber(up).VariantID(index.VariantSubID(low))
			if int(v) != up<<16|low || int(v.TableNum()) != up || int(v.CollectionTableID()) != low {
				return mc.Failf("combination id of %#x, %#x is %#x with parts %#x, %#x", up, low, v, v.TableNum(), v.CollectionTableID())
			}

			return nil
		}

		if !x.Quick() {
			for low := 0; low < 0x10000; low++ {
				if err := one(p.Upper, low); err != nil {
					return err
				}
			}

			x.Evals(0x10000, 0x10000)

			return nil
		}

		for _, b := range boundary {
			if err := one(p.Upper, b); err != nil {
				return err
			}

			if err := one(b, p.Upper); err != nil {
				return err
			}
		}

		x.Evals(2*len(boundary), 2*len(boundary))

		return nil
	})
}

func checkUnions(c *mc.C) {
	type union struct {
		Has   []int `json:"has"`
		Add   int   `json:"add"`
		Spare int   `json:"spare"`
	}

	values := []int{0, 1, 2, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff}

	mc.Family(c, "unions", "every subset of 9 boundary ids with every id added, with 0..2 spare elements of capacity; sets of every size 0..254", func(yield func(union) bool) {
		for mask := 0; mask < 1<<len(values); mask++ {
			var has []int

			for i, v := range values {
				if mask&(1<<i) != 0 {
					has = append(has, v)
				}
			}

			for _, v := range append(append([]int{}, values...), 3, 0x20000) {
				for spare := 0; spare < 3; spare++ {
					if !yield(union{has, v, spare}) {
						return
					}
				}
			}
		}

		for n := 0; n < 255; n++ {
			has := make([]int, n)
			for i := range has {
				has[i] = 2*i + 2
			}

			for _, add := range []int{0, 1, n, n + 1, 2 * n, 2*n + 1, 2*n + 2, 2*n + 3} {
				if !yield(union{has, add, n % 3}) {
					return
				}
			}
		}
	}, func(x *mc.X, p union) error {
		full := make(index.TagSetIDCollection, len(p.Has)+p.Spare)
		want := append([]int{}, p.Has...)
		known := false

		for i := range full {
			full[i] = 0xabcdef
		}

		for i, v := range p.Has {
			full[i] = index.TagSetID(v)
			known = known || v == p.Add
		}

		if !known {
			want = append(want, p.Add)
			sort.Ints(want)
		}

		original := full[:len(p.Has)]
		backup := fmt.Sprint(full)

		if original.Has(index.TagSetID(p.Add)) != known {
			return mc.Failf("%v has %#x: %v", p.Has, p.Add, !known)
		}

		got := original.Add(index.TagSetID(p.Add))
		if fmt.Sprint(ints(got)) != fmt.Sprint(want) {
			return mc.Failf("%x and %#x make %x", p.Has, p.Add, ints(got))
		}

		if fmt.Sprint(full) != backup || len(original) != len(p.Has) {
			return mc.Failf("adding %#x to %x changes the original to %x", p.Add, p.Has, ints(full))
		}

		second := original.Add(0x33333333) // another union must not share memory with the first
		if fmt.Sprint(ints(got)) != fmt.Sprint(want) {
			return mc.Failf("second union %x changes the first one to %x", ints(second), ints(got))
		}

		x.Evals(1, 1)
		x.Trans(2)

		return nil
	})
}

// checkEveryID asks an index for every id in and around its ranges.
func checkEveryID(c *mc.C) {
	type chosen struct {
		Subject int  `json:"subject"`
		Reload  bool `json:"reload"`
	}

	mc.Family(c, "index", "every combination id and tag set id in and around the ranges of 9 indexes, fresh and loaded", func(yield func(chosen) bool) {
		for n := 0; n < subjects; n++ {
			if !yield(chosen{n, false}) || !yield(chosen{n, true}) {
				return
			}
		}
	}, func(x *mc.X, p chosen) error {
		w, err := subject(p.Subject)
		if err != nil {
			return err
		}

		if p.Reload {
			if err = w.saveAndLoad("new"); err != nil {
				return err
			}
		}

		// known ids by the words using them
		type used struct{ sets []string }

		variants := map[index.VariantID]string{}

		for id := range w.strs {
			item := w.ix.GetItem(dag.ID(id)).Item()

			var sets []string
			for s := range w.sets[id] {
				sets = append(sets, s)
			}

			sort.Strings(sets)

			text := strings.Join(sets, "")
			if before, ok := variants[item.Variants]; ok && before != text {
				return mc.Failf("combination %#x stands for %s and %s", item.Variants, before, text)
			}

			if (item.Variants == 0) != (text == "") {
				return mc.Failf("word %q with sets %s has combination %#x", w.strs[id], text, item.Variants)
			}

			variants[item.Variants] = text
		}

		_ = used{}

		spell := func(ids index.TagSetIDCollection) (string, error) {
			var sets []string

			for _, id := range ids {
				tagSet, ok := w.ix.TagSetIndex().Get(id)
				if !ok {
					return "", mc.Failf("unknown tag set %#x in a combination", id)
				}

				tags, err := w.ix.TagSet(tagSet)
				if err != nil {
					return "", err
				}

				names := make([]string, len(tags))
				for i, tag := range tags {
					names[i] = string(tag.Parent) + "/" + string(tag.Name)
				}

				sets = append(sets, canon(names))
			}

			sort.Strings(sets)

			return strings.Join(sets, ""), nil
		}

		tables := make([]int, 0, 300)
		for t := 0; t < 300; t++ {
			tables = append(tables, t)
		}

		tables = append(tables, 0x7fff, 0x8000, 0xffff)

		for _, table := range tables {
			positions := []int{}
			for pos := 0; pos < 300; pos++ {
				positions = append(positions, pos)
			}

			for _, pos := range append(positions, 0x7fff, 0x8000, 0xffff) {
				id := index.VariantID(storage.Combine16(storage.ID16(table), storage.ID16(pos)))
				ids, err := w.ix.Variants(id)
				text, known := variants[id]

				x.Evals(1, 1)

				switch {
				case known:
					got, failure := spell(ids)
					if failure != nil {
						return failure
					}

					if err != nil || got != text {
						return mc.Failf("combination %#x is %s, %v, expected %s", id, got, err, text)
					}
				case err == nil && table == 0 && pos > 0:
					return mc.Failf("combination %#x is not refused, there is none", id)
				case err == nil && len(ids) > 0 && (table == 0 || len(ids) != table):
					return mc.Failf("combination %#x has %d sets", id, len(ids))
				case err == nil && len(ids) > 0:
					if _, err = spell(ids); err != nil {
						return err
					}
				}

				tagSet, ok := w.ix.TagSetIndex().Get(index.TagSetID(id))
				if ok && len(tagSet) != table+1 {
					return mc.Failf("tag set id %#x gives %v", id, tagSet)
				}
			}
		}

		x.Trace(1)

		return nil
	})
}
