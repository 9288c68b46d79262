//go:build go1.22

package main

import (
	"fmt"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

type submission struct {
	values   []int
	extraCap int
	scribble bool
}

// lockstep drives a store with submissions, searches and fetches. With sweeping, everything is compared after every
// operation, otherwise only the result of the operation itself and everything at the end, so that the comparisons can
// not hide or provoke effects between operations.
func lockstep(name, storeName string, subs []submission, finds [][]int, gets []int, sweeping bool) mc.Lockstep[*model] {
	var ops []string

	var run []func(m *model) error

	var domain [][]int

	for _, s := range subs {
		s := s
		domain = append(domain, s.values)
		if s.extraCap == oneBuffer {
			ops = append(ops, "index "+brief(s.values)+" in the only buffer")
		} else {
			ops = append(ops, fmt.Sprintf("index %s cap+%d reuse=%v", brief(s.values), s.extraCap, s.scribble))
		}

		run = append(run, func(m *model) error { return m.index(s.values, s.extraCap, s.scribble) })
	}

	for _, f := range finds {
		f := f
		domain = append(domain, f)
		ops = append(ops, "find "+brief(f))
		run = append(run, func(m *model) error { return m.find(f) })
	}

	for _, g := range gets {
		g := g
		ops = append(ops, fmt.Sprintf("get %#x", g))
		run = append(run, func(m *model) error { return m.get(g) })
	}

	l := mc.Lockstep[*model]{
		Name: name, Ops: ops,
		New: func() *model { return newModel(storeName) },
		Key: func(m *model) string { return m.state() },
	}

	if sweeping {
		l.Step = func(m *model, op int) error {
			if err := run[op](m); err != nil {
				return err
			}

			return m.sweep(domain)
		}
	} else {
		l.Step = func(m *model, op int) error { return run[op](m) }
		l.Final = func(m *model) error { return m.sweep(domain) }
	}

	return l
}

func checkTables(c *mc.C) {
	checkStores(c, []string{"table8", "table16"}, false)
}

func checkCollections(c *mc.C) {
	checkStores(c, []string{"collection8", "collection16"}, true)
}

func maxOf(storeName string) int {
	if storeName == "table8" || storeName == "collection8" {
		return 0xff
	}

	return 0xffff
}

type sets struct {
	Store string  `json:"store"`
	Sets  [][]int `json:"sets"`
}

// inOrder submits sets into a fresh store (all are distinct), checks everything, submits them again.
func inOrder(x *mc.X, storeName string, in [][]int, scribble bool) error {
	if err := inOrderFrom(x, storeName, in, scribble, false); err != nil {
		return err
	}

	if err := inOrderFrom(x, storeName, in, false, true); err != nil {
		return mc.Failf("all sets passed in one slice: %v", err)
	}

	return nil
}

func inOrderFrom(x *mc.X, storeName string, in [][]int, scribble, buffer bool) error {
	m := newModel(storeName)
	extra := func(i int) int {
		if buffer {
			return oneBuffer
		}

		return i % 3
	}

	for i, s := range in {
		if err := m.index(s, extra(i), scribble); err != nil {
			return err
		}
	}

	if err := m.sweep(in); err != nil {
		return err
	}

	for _, s := range in {
		if err := m.index(s, extra(0), scribble); err != nil {
			return mc.Failf("again: %v", err)
		}
	}

	x.Trans(2 * len(in))
	x.Trace(1)
	x.Evals(1, 1)
	x.State(storeName + m.state())

	return m.sweep(in)
}

func checkStores(c *mc.C, names []string, collections bool) {
	c.Rule("Lockstep of the real store with a reference list of sorted sets: all operation sequences up to a depth, all pairs of small sets, all subsets " +
		"of a domain, all orders of submission and of elements, size and fill sweeps. States are distinct reference contents; every transition compares the " +
		"implementation's answers with the reference.")
	c.Assume("searches are made with sorted sets, as documented")

	for _, name := range names {
		top := maxOf(name)
		hi := top / 2

		// sequences, compared after every step
		subs := []submission{
			{[]int{0}, 0, false}, {[]int{top}, 1, true}, {[]int{0, 1}, 0, false}, {[]int{1, 0}, 2, true}, {[]int{2, 1, 0}, 0, true},
			{[]int{0, 1, 2}, 0, false}, {[]int{1, top}, 0, true}, {[]int{}, 0, false}, {[]int{hi + 1, hi, 3}, 1, true},
		}
		depth := c.Pick(5, 7)
		mc.Sequences(c, lockstep(name+".swept", name, subs, nil, nil, true), depth)

		// sequences with searches and fetches in between, compared by results and at the end
		subs2 := []submission{{[]int{4}, 0, true}, {[]int{7, 4}, 0, false}, {[]int{4, 7}, 0, true}, {[]int{1, 7, 4}, 3, true}, {[]int{4, 5, 7}, 0, false}, {[]int{}, 2, false}}
		one := newModel(name).impl
		gets := []int{0, 1, one.Want(2, 0, 2), one.MaxID()}
		if collections {
			gets = []int{one.Want(1, 0, 0), one.Want(2, 0, 0), one.Want(3, 0, 0), one.Want(3, 1, 0)}
		}

		finds := [][]int{{4}, {4, 7}, {1, 4, 7}, {}, {1, 2, 3, 4, 5}}
		mc.Sequences(c, lockstep(name+".mixed", name, subs2, finds, gets, false), c.Pick(5, 6))

		// a caller with a single buffer, compared after every step and at the end only
		var single []submission
		for _, v := range [][]int{{0}, {top}, {0, 1}, {1, 0}, {hi, top}, {top, 1}, {0, 1, 2}, {hi, 1, 0}, {5, 5}} {
			single = append(single, submission{v, oneBuffer, false})
		}

		mc.Sequences(c, lockstep(name+".one-buffer", name, single, nil, nil, true), c.Pick(4, 6))
		mc.Sequences(c, lockstep(name+".one-buffer.mixed", name, single[:6], [][]int{{0}, {0, 1}, {1, top}}, gets[:2], false), c.Pick(5, 6))

		// deeper: a wide domain, merged by reference content
		var wide []submission

		for _, n := range []int{1, 2, 3} {
			mc.Combinations([]int{0, 1, hi, top}, n, func(v []int) bool {
				wide = append(wide, submission{v, 0, true})
				return true
			})
		}

		mc.BFS(c, lockstep(name+".wide", name, wide, nil, nil, true), c.Pick(4, 6), 200000)

		// all pairs of small sets
		values := []int{0, 1, 2, 127, 128, 254, 255}
		if top > 255 {
			values = append(values, 256, 257, 0x7fff, 0x8000, 0xff00, 0xffff)
		}

		var small [][]int
		for n := 1; n <= 3; n++ {
			mc.Combinations(values, n, func(v []int) bool { small = append(small, v); return true })
		}

		type pair struct {
			A []int `json:"a"`
			B []int `json:"b"`
		}

		mc.Family(c, name+".pairs", fmt.Sprintf("all pairs out of %d sets of 1..3 elements over %d boundary ids", len(small), len(values)), func(yield func(pair) bool) {
			for _, a := range small {
				for _, b := range small {
					if !yield(pair{a, b}) {
						return
					}
				}
			}
		}, func(x *mc.X, p pair) error {
			if key(p.A) == key(p.B) {
				return inOrder(x, name, [][]int{p.A}, true)
			}

			return inOrder(x, name, [][]int{p.A, p.B}, true)
		})

		// lists with repeated elements are sets of their own
		type start struct {
			From int   `json:"from"`
			Step int   `json:"step"`
			Size int   `json:"size"`
			A    []int `json:"a,omitempty"`
		}

		wideRun, deepRun := 5, 4
		if !c.Quick() {
			wideRun, deepRun = 6, 5
		}

		repeated := func(k start) (all [][]int) {
			var rec func(at []int, from int)

			rec = func(at []int, from int) {
				if len(at) > 0 {
					all = append(all, append([]int(nil), at...))
				}

				if len(at) == k.Size {
					return
				}

				for i := from; i < wideRun; i++ {
					rec(append(at[:len(at):len(at)], k.From+i*k.Step), i)
				}
			}
			rec(nil, 0)

			return all
		}

		starts := []start{{From: 0, Step: 1}, {From: 5, Step: 1}, {From: hi - 2, Step: 1}, {From: top - wideRun + 1, Step: 1}, {From: 1, Step: top / (wideRun + 1)}}

		mc.Family(c, name+".repeated", fmt.Sprintf("all pairs of lists of up to %d elements, repeated ones included, over 5 domains of %d ids; all of them in one store", deepRun, wideRun), func(yield func(start) bool) {
			for _, k := range starts {
				for k.Size = 1; k.Size <= deepRun; k.Size++ {
					if !yield(k) {
						return
					}
				}

				k.Size = deepRun
				for _, a := range repeated(k) {
					k.A = a
					if !yield(k) {
						return
					}
				}
			}
		}, func(x *mc.X, k start) error {
			all := repeated(k)

			if k.A == nil {
				if limit := 256; top == 255 && !collections && len(all) > limit {
					all = all[:limit]
				}

				return inOrder(x, name, all, false)
			}

			for _, b := range all {
				pair := [][]int{k.A, b}
				if key(k.A) == key(b) {
					pair = pair[:1]
				}

				if err := inOrder(x, name, pair, true); err != nil {
					return err
				}
			}

			return nil
		})

		// sets whose sums, exclusive ors, polynomials are the same
		type near struct {
			Size int   `json:"size"`
			Top  int   `json:"top"`
			Both bool  `json:"both,omitempty"`
			A    []int `json:"a,omitempty"`
		}

		mc.Family(c, name+".dense", "all 2-element sets over 0..63 and 3-element sets over 0..23 in one store (a window of them in an 8-bit one) and in pairs; sets of every size to 128 and those with two elements changed such that simple digests stay the same", func(yield func(near) bool) {
			for _, k := range []near{{Size: 2, Top: 64}, {Size: 3, Top: 24}} {
				if !yield(k) {
					return
				}

				k.Both = true
				n := 0

				mc.Combinations(upTo(k.Top), k.Size, func(v []int) bool {
					k.A = append([]int{}, v...)

					// quick: the first of each pair is every 16th set
					n++

					return c.Quick() && n%16 != 0 || yield(k)
				})
			}

			for n := 2; n <= c.Pick(64, 128); n++ {
				if !yield(near{Size: n}) {
					return
				}
			}
		}, func(x *mc.X, k near) error {
			if k.Top == 0 {
				base := mc.Spread(k.Size, top)
				group := [][]int{base}

				var err error

				mc.Compensated(base, top, func(v []int) bool {
					group = append(group, v)
					if len(group) == 200 {
						err = inOrder(x, name, group, false)
						group = group[:1]
					}

					return err == nil
				})

				if err == nil && len(group) > 1 {
					err = inOrder(x, name, group, false)
				}

				return err
			}

			var all [][]int

			mc.Combinations(upTo(k.Top), k.Size, func(v []int) bool { all = append(all, append([]int{}, v...)); return true })

			if !k.Both {
				if top > 255 {
					return inOrder(x, name, all, false)
				}

				for from := 0; from < len(all); from += 64 {
					if err := inOrder(x, name, all[from:min(from+256, len(all))], false); err != nil {
						return err
					}
				}

				return nil
			}

			for _, b := range all {
				if key(k.A) != key(b) {
					m := newModel(name)

					for _, set := range [][]int{k.A, b, k.A} {
						if err := m.index(set, 0, false); err != nil {
							return err
						}
					}

					for _, set := range [][]int{k.A, b} {
						if err := m.find(set); err != nil {
							return err
						}
					}

					x.Trans(3)
					x.Evals(1, 1)
				}
			}

			return nil
		})

		// one element changed, every bit, every position, every size
		type sized struct {
			Len int `json:"len"`
		}

		maxLen := c.Pick(128, 250)

		mc.Family(c, name+".positions", fmt.Sprintf("sets of every size 1..%d: the set and every set differing in one bit of one element, all in one store", maxLen), func(yield func(sized) bool) {
			for n := 1; n <= maxLen; n++ {
				if !yield(sized{n}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			base := make([]int, s.Len)
			for i := range base {
				base[i] = i * (top + 1) / s.Len
			}

			has := map[int]bool{}
			for _, v := range base {
				has[v] = true
			}

			group := [][]int{base}
			flush := func() error {
				err := inOrder(x, name, group, true)
				group = [][]int{base}

				return err
			}

			for i := range base {
				for bit := 1; bit <= top; bit <<= 1 {
					if has[base[i]^bit] {
						continue
					}

					v := append([]int{}, base...)
					v[i] ^= bit
					group = append(group, v)

					if len(group) == 17 {
						if err := flush(); err != nil {
							return err
						}
					}
				}
			}

			return flush()
		})

		// many sets: all subsets of a domain in one store (collision of keys), in ascending, descending and stride order
		type universe struct {
			Values []int `json:"values"`
			K      int   `json:"k"`
			Order  int   `json:"order"`
		}

		domains := [][]int{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 2, 4, 8, 16, 32, 64, 128}, {top - 8, top - 7, top - 6, top - 5, top - 4, top - 3, top - 2, top - 1, top}, {10, 20, 30, 40, 50, 60, 70, 80, 90}, {0, 31, 62, 93, 124, 155, 186, 217, 248}}
		if top > 255 {
			domains = append(domains, []int{0, 256, 512, 1, 257, 513, 2, 258, 514}, []int{1, 0x100, 0x101, 0x8000, 0x8001, 0x8100, 0x7f, 0x7f00, 0x7f7f})
		}

		mc.Family(c, name+".subsets", "all k-element subsets (all subsets for collections) of several 8..10 element domains, three orders", func(yield func(universe) bool) {
			for _, d := range domains {
				for k := 0; k <= 9; k++ {
					if (k == 0) != collections {
						continue
					}

					for order := 0; order < 3; order++ {
						if !yield(universe{d, k, order}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, u universe) error {
			var all [][]int

			for k := 1; k <= len(u.Values); k++ {
				if u.K == 0 || u.K == k {
					mc.Combinations(u.Values, k, func(v []int) bool { all = append(all, v); return true })
				}
			}

			if u.K == 0 {
				all = interleave(all)
			} else if len(all) > 256 {
				all = all[:256]
			}

			ordered := make([][]int, 0, len(all))
			for i := range all {
				switch u.Order {
				case 0:
					ordered = append(ordered, all[i])
				case 1:
					ordered = append(ordered, all[len(all)-1-i])
				default:
					ordered = append(ordered, all[i*relPrime(len(all))%len(all)])
				}
			}

			return inOrder(x, name, ordered, u.Order != 0)
		})

		// growth: everything compared at every fill level (re-allocation of the backing arrays)
		fill := c.Pick(200, 256)

		mc.Family(c, name+".growth", fmt.Sprintf("0..%d sets, everything compared after each submission, with and without caller re-using its slice, sizes 1..3", fill), func(yield func(universe) bool) {
			for k := 1; k <= 3; k++ {
				for order := 0; order < 2; order++ {
					if !yield(universe{nil, k, order}) {
						return
					}
				}
			}
		}, func(x *mc.X, u universe) error {
			m := newModel(name)

			for i := 0; i < fill; i++ {
				s := []int{top - i}
				for len(s) < u.K {
					s = append(s, (i+100*len(s))%200+300*boolInt(top > 255))
				}

				if u.K > 1 {
					s = distinct(s, top)
				}

				if err := m.index(s, i&3, u.Order == 1); err != nil {
					return err
				}

				if err := m.sweep(nil); err != nil {
					return mc.Failf("with %d sets: %v", i+1, err)
				}

				x.Trans(1)
				x.State(fmt.Sprint(name, u, i))
			}

			x.Trace(1)
			x.Evals(1, 1)

			return nil
		})

		// element order: every permutation
		perm := c.Pick(6, 8)

		mc.Family(c, name+".element-order", fmt.Sprintf("sets of 2..%d elements: every order of the elements submitted first, every order submitted again", perm), func(yield func(sized) bool) {
			for n := 2; n <= perm; n++ {
				if !yield(sized{n}) {
					return
				}
			}
		}, func(x *mc.X, s sized) (err error) {
			base := make([]int, s.Len)
			for i := range base {
				base[i] = i * top / (s.Len - 1)
			}

			shared := newModel(name)
			_ = shared.index([]int{9}, 0, false)

			mc.Permutations(base, func(p []int) bool {
				m := newModel(name)
				if err = m.index(p, 1, true); err == nil {
					err = m.sweep([][]int{{9}})
				}

				if err == nil {
					err = shared.index(p, 0, true)
				}

				x.Trans(2)
				x.Trace(1)
				x.Evals(1, 1)

				return err == nil && !x.Expired()
			})

			if err == nil {
				err = shared.sweep(nil)
			}

			return err
		})

		if collections {
			checkCollectionSizes(c, name)
		}
	}
}

// distinct makes the elements pairwise different.
func distinct(s []int, top int) []int {
	seen := map[int]bool{}

	for i := range s {
		for seen[s[i]] {
			s[i] = (s[i] + 7) % (top + 1)
		}

		seen[s[i]] = true
	}

	return s
}

func relPrime(n int) int {
	for p := n/2 + 1; ; p++ {
		a, b := p, n
		for b != 0 {
			a, b = b, a%b
		}

		if a == 1 {
			return p
		}
	}
}

// interleave mixes sizes, largest first.
func interleave(all [][]int) (res [][]int) {
	for i, j := 0, len(all)-1; i <= j; i, j = i+1, j-1 {
		res = append(res, all[j])
		if i != j {
			res = append(res, all[i])
		}
	}

	return res
}

func firstN(n, shift, top int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = (i + shift) % (top + 1)
	}

	return s
}

func checkCollectionSizes(c *mc.C, name string) {
	top := maxOf(name)

	type sizes struct {
		Sizes []int `json:"sizes"`
	}

	// sizes in any order of appearance
	pool := []int{1, 2, 3, 5, 17, 200}
	if top > 255 {
		pool = append(pool, 256, 257, 700)
	}

	mc.Family(c, name+".size-orders", fmt.Sprintf("all sequences of 1..4 sizes out of %v, two sets of each", pool), func(yield func(sizes) bool) {
		for n := 1; n <= 4; n++ {
			stop := false
			mc.Each(len(pool), n, func(w []int) bool {
				s := make([]int, n)
				for i := range w {
					s[i] = pool[w[i]]
				}

				stop = !yield(sizes{s})

				return !stop
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, s sizes) error {
		m := newModel(name)

		var domain [][]int
		for _, n := range pool {
			domain = append(domain, firstN(n, 0, top), firstN(n, 1, top), firstN(n, 9, top))
		}

		for i, n := range s.Sizes {
			if err := m.index(firstN(n, i%2, top), i, true); err != nil {
				return err
			}

			if err := m.sweep(domain); err != nil {
				return err
			}
		}

		x.Trans(len(s.Sizes))
		x.Trace(1)
		x.Evals(1, 1)
		x.State(name + fmt.Sprint(s.Sizes))

		return nil
	})

	type one struct {
		Size int `json:"size"`
	}

	limit := top + 1
	if top > 255 {
		limit = c.Pick(700, 3000)
	}

	mc.Family(c, name+".every-size", fmt.Sprintf("every size 1..%d as the first set of a collection and as a following one, sizes around the limit of the id, searching empty and oversized sets", limit), func(yield func(one) bool) {
		for n := 1; n <= limit; n++ {
			if !yield(one{n}) {
				return
			}
		}

		if top > 255 {
			for _, n := range []int{4096, 32767, 32768, 32769, 65534, 65535, 65536} {
				if !yield(one{n}) {
					return
				}
			}
		}
	}, func(x *mc.X, s one) error {
		m := newModel(name)
		domain := [][]int{nil, {1}, {1, 2}, firstN(s.Size, 0, top), firstN(s.Size+1, 0, top), firstN(s.Size+3, 0, top)}

		if s.Size > 1 {
			domain = append(domain, firstN(s.Size-1, 0, top))
		}

		if err := m.sweep(domain); err != nil {
			return mc.Failf("empty collection: %v", err)
		}

		for step, v := range [][]int{firstN(s.Size, 0, top), {3}, {}, firstN(s.Size, 1, top), {4, 5}, firstN(s.Size, 0, top)} {
			if err := m.index(v, 0, true); err != nil {
				return mc.Failf("step %d: %v", step, err)
			}

			if err := m.sweep(domain); err != nil {
				return mc.Failf("step %d: %v", step, err)
			}
		}

		x.Trans(6)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(name + fmt.Sprint("size", s.Size))

		return nil
	})

	mc.Family(c, name+".oversize-find", "searching sets larger than any indexable one in an empty and in a filled collection", func(yield func(one) bool) {
		for _, d := range []int{1, 2, 3, 10, 255, 256, 257, 258, 512, top, top + 1, top + 2, top + 3} {
			if !yield(one{top + 1 + d}) {
				return
			}
		}
	}, func(x *mc.X, s one) error {
		m := newModel(name)
		big := firstN(s.Size, 0, top)

		if err := m.find(big); err != nil {
			return err
		}

		for _, v := range [][]int{{1}, {1, 2}, {0}, firstN(top+1, 0, top)} {
			if err := m.index(v, 0, true); err != nil {
				return err
			}

			if err := m.find(big); err != nil {
				return err
			}
		}

		x.Trans(9)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(name + fmt.Sprint("oversize", s.Size))

		return m.sweep(nil)
	})
}

// ---- C07

// full expects a submission to be refused.
func (m *model) full(values []int, scribble bool) error {
	id, p := m.impl.Index(values, 0, scribble)
	if p == "" {
		return mc.Failf("store of %d sets: submitting one more, %s, returned id %#x instead of refusing it", len(m.sets), brief(values), id)
	}

	return nil
}

// nthSet enumerates distinct k-element sets.
func nthSet(n, k, top int) []int {
	if k == 1 {
		return []int{n}
	}

	// two running elements select the set, the others are fixed at the top
	span := top + 1 - (k - 2)
	a := n / (span / 2)
	b := n % (span / 2)
	s := []int{a, span/2 + b}

	for i := 0; i < k-2; i++ {
		s = append(s, top-i)
	}

	return s
}

func checkCapacity(c *mc.C) {
	c.Rule("Stores and the tag list are filled completely, the answers compared with the reference while filling and, at the limit, for all items; every " +
		"further distinct item is submitted repeatedly in several ways. States are fill levels.")

	type spec struct {
		Store string `json:"store"`
		Size  int    `json:"size"`
		Step  int    `json:"step"` // compare everything every Step submissions
		Other bool   `json:"other"`
	}

	fillRun := func(x *mc.X, s spec) error {
		top := maxOf(s.Store)
		m := newModel(s.Store)
		capacity := top + 1

		if s.Other {
			// other sizes present in the collection before and after do not matter
			for i := 0; i < 5; i++ {
				if err := m.index(nthSet(i, s.Size+1, top), 0, true); err != nil {
					return err
				}
			}
		}

		for i := 0; i < capacity; i++ {
			if err := m.index(nthSet(i, s.Size, top), i&1, i&2 != 0); err != nil {
				return err
			}

			x.Trans(1)
			x.State(fmt.Sprint(s, i))

			if (i+1)%s.Step == 0 {
				if err := m.sweep(nil); err != nil {
					return mc.Failf("with %d sets: %v", i+1, err)
				}

				for j := 0; j <= i; j++ {
					if err := m.index(nthSet(j, s.Size, top), 0, true); err != nil {
						return mc.Failf("with %d sets, again: %v", i+1, err)
					}
				}
			}

			if x.Expired() {
				return nil
			}
		}

		sweepAll := func() error {
			if capacity > 256 {
				// quadratic otherwise
				for i := 0; i < capacity; i += 97 {
					v := nthSet(i, s.Size, top)
					if err := m.find(v); err != nil {
						return err
					}
				}

				for id := range m.sets {
					if err := m.get(id); err != nil {
						return err
					}
				}

				return m.find(nthSet(capacity-1, s.Size, top))
			}

			return m.sweep(nil)
		}

		if err := sweepAll(); err != nil {
			return mc.Failf("full: %v", err)
		}

		extra := [][]int{}
		for i := 0; i < 4; i++ {
			if s.Size > 1 {
				extra = append(extra, nthSet(capacity+i, s.Size, top))
			} else if s.Store == "table8" || s.Store == "table16" {
				extra = append(extra, nthSet(i, 2, top))
			}
		}

		for round := 0; round < 2; round++ {
			for _, v := range extra {
				if err := m.full(v, true); err != nil {
					return err
				}

				if _, found := m.impl.Find(mc.Sorted(v)); found {
					return mc.Failf("a refused set is found")
				}
			}

			for i := 0; i < capacity; i += 1 + (capacity-1)/257 {
				if err := m.index(nthSet(i, s.Size, top), 0, true); err != nil {
					return mc.Failf("full, again: %v", err)
				}
			}

			if err := sweepAll(); err != nil {
				return mc.Failf("after refusals: %v", err)
			}
		}

		if s.Store == "collection8" || s.Store == "collection16" {
			// another size still takes sets
			if err := m.index(nthSet(77, s.Size+1, top), 0, true); err != nil {
				return mc.Failf("other size: %v", err)
			}

			if err := m.find(nthSet(77, s.Size+1, top)); err != nil {
				return mc.Failf("other size: %v", err)
			}
		}

		x.Trace(1)
		x.Evals(1, 1)

		return nil
	}

	mc.Family(c, "8-bit", "Table8 and a size of Collection8x8 filled to 256 sets, everything compared at every fill level, set sizes 1..6, 20, 100, 200", func(yield func(spec) bool) {
		for _, name := range []string{"table8", "collection8"} {
			for _, size := range []int{1, 2, 3, 4, 5, 6, 20, 100, 200} {
				for _, step := range []int{1, 1000} {
					for _, other := range []bool{false, true} {
						if other && name == "table8" {
							continue
						}

						if !yield(spec{name, size, step, other}) {
							return
						}
					}
				}
			}
		}
	}, fillRun)

	mc.Family(c, "16-bit", "Table16 and a size of Collection16 filled to 65536 sets", func(yield func(spec) bool) {
		for _, name := range []string{"table16", "collection16"} {
			for _, size := range []int{1, 2, 3} {
				if !c.Quick() || size < 3 {
					if !yield(spec{name, size, 1 << 20, name == "collection16"}) {
						return
					}
				}
			}
		}
	}, fillRun)

	type big struct {
		Store string `json:"store"`
		Size  int    `json:"size"`
	}

	mc.Family(c, "too-large", "sets too large for the size part of a collection id", func(yield func(big) bool) {
		for _, name := range []string{"collection8", "collection16"} {
			for _, d := range []int{1, 2, 3, 10, 44, 128, 254, 255, 256, 257, 258, 511, 512, 513, 1000} {
				if !yield(big{name, maxOf(name) + 1 + d}) {
					return
				}
			}

			if !yield(big{name, 2*maxOf(name) + 3}) {
				return
			}
		}
	}, func(x *mc.X, s big) error {
		m := newModel(s.Store)
		top := maxOf(s.Store)

		for round := 0; round < 2; round++ {
			if err := m.full(firstN(s.Size, 0, top), true); err != nil {
				return err
			}

			for i := 0; i < 3; i++ {
				for _, v := range [][]int{{i}, {1, i + 7}, firstN(top, i, top), firstN(top+1, 0, top)} {
					if err := m.index(v, 0, true); err != nil {
						return err
					}
				}
			}

			if err := m.sweep(nil); err != nil {
				return err
			}
		}

		x.Trans(26)
		x.Trace(1)
		x.Evals(1, 1)
		x.State(fmt.Sprint(s))

		return nil
	})

	// the tag list
	type tags struct {
		Initial int  `json:"initial"`
		Step    int  `json:"step"`
		Parents bool `json:"parents"`
	}

	mc.Family(c, "tags", "the tag list filled to 256 tags from 0..256 initial tags, everything compared at every fill level", func(yield func(tags) bool) {
		for initial := 0; initial <= 256; initial++ {
			step := 1000
			if initial%32 == 0 {
				step = 1
			}

			if !yield(tags{initial, step, initial%2 == 0}) {
				return
			}
		}
	}, func(x *mc.X, s tags) error {
		name := func(i int) dag.TagName { return dag.TagName(fmt.Sprintf("T%03x", i)) }
		parent := func(i int) dag.TagName {
			if s.Parents {
				return name(i / 2)
			}

			return "----"
		}

		var known []dag.Tag
		for i := 0; i < s.Initial; i++ {
			known = append(known, *dag.NewTag(parent(i), name(i)))
		}

		idx := dag.NewIndex(known...)
		compare := func(n int) error {
			if idx.Len() != n {
				return mc.Failf("%d tags, expected %d", idx.Len(), n)
			}

			for i := 0; i < n; i++ {
				id, found := idx.Find(name(i))
				if !found || int(id) != i {
					return mc.Failf("with %d tags: tag %d found as (%d, %v)", n, i, id, found)
				}

				tag, found := idx.Get(dag.TagID(i))
				if !found || tag.Name != name(i) || tag.Parent != parent(i) {
					return mc.Failf("with %d tags: tag %d is %v %v", n, i, tag, found)
				}

				id2, p := caught(func() int { return int(idx.Index(name(i), "ABCD")) })
				if p != "" || id2 != i {
					return mc.Failf("with %d tags: registering tag %d again: %d %s", n, i, id2, p)
				}
			}

			for i := n; i < 256; i++ {
				if tag, found := idx.Get(dag.TagID(i)); found {
					return mc.Failf("with %d tags: id %d answers %v", n, i, tag)
				}
			}

			return nil
		}

		for i := s.Initial; i < 256; i++ {
			id, p := caught(func() int { return int(idx.Index(name(i), parent(i))) })
			if p != "" || id != i {
				return mc.Failf("registering tag %d: %d %s", i, id, p)
			}

			x.Trans(1)
			x.State(fmt.Sprint("tags", s, i))

			if i%s.Step == 0 {
				if err := compare(i + 1); err != nil {
					return err
				}
			}
		}

		if err := compare(256); err != nil {
			return err
		}

		for round := 0; round < 2; round++ {
			for i := 256; i < 260; i++ {
				if id, p := caught(func() int { return int(idx.Index(name(i), "----")) }); p == "" {
					return mc.Failf("list of 256 tags: registering one more returned id %d", id)
				}

				if _, found := idx.Find(name(i)); found {
					return mc.Failf("a refused tag is found")
				}
			}

			if err := compare(256); err != nil {
				return err
			}
		}

		x.Trace(1)
		x.Evals(1, 1)

		return nil
	})
}

// upTo lists the values below a limit.
func upTo(limit int) []int {
	res := make([]int, limit)
	for i := range res {
		res[i] = i
	}

	return res
}
