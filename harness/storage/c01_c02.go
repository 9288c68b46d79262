//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

func checkIDs(c *mc.C) {
	c.Rule("Every pair of halves and every composite id is packed, split and re-packed; nothing is skipped, every evaluation is a distinct pair.")

	type span struct {
		From, To int // upper halves [From, To)
	}

	mc.Family(c, "id8", "all 2^8 ids", func(yield func(span) bool) { yield(span{0, 256}) }, func(x *mc.X, s span) error {
		for v := s.From; v < s.To; v++ {
			if storage.ID8(v).Uint8() != uint8(v) || dag.TagID(v).Uint8() != uint8(v) {
				return mc.Failf("id %d as a number is %d / %d", v, storage.ID8(v).Uint8(), dag.TagID(v).Uint8())
			}
		}

		x.Evals(s.To-s.From, s.To-s.From)

		return nil
	})

	mc.Family(c, "id16", "all 2^16 pairs of 8-bit halves and composite ids", func(yield func(span) bool) {
		for hi := 0; hi < 256; hi += 32 {
			if !yield(span{hi, hi + 32}) {
				return
			}
		}
	}, func(x *mc.X, s span) error {
		for hi := s.From; hi < s.To; hi++ {
			for lo := 0; lo < 256; lo++ {
				id := storage.Combine8(storage.ID8(hi), storage.ID8(lo))
				if int(id) != hi*256+lo || int(id.Upper()) != hi || int(id.Lower()) != lo {
					return mc.Failf("halves (%d, %d): id %#x, split (%d, %d)", hi, lo, int(id), id.Upper(), id.Lower())
				}

				whole := storage.ID16(hi*256 + lo)
				if storage.Combine8(whole.Upper(), whole.Lower()) != whole {
					return mc.Failf("id %#x re-packs to %#x", int(whole), int(storage.Combine8(whole.Upper(), whole.Lower())))
				}
			}
		}

		x.Evals((s.To-s.From)*256, (s.To-s.From)*256)

		return nil
	})

	mc.Family(c, "id32", "all 2^32 pairs of 16-bit halves and composite ids", func(yield func(span) bool) {
		for hi := 0; hi < 65536; hi += 64 {
			if !yield(span{hi, hi + 64}) {
				return
			}
		}
	}, func(x *mc.X, s span) error {
		for hi := s.From; hi < s.To; hi++ {
			for lo := 0; lo < 65536; lo++ {
				want := uint32(hi)<<16 + uint32(lo)
				id := storage.Combine16(storage.ID16(hi), storage.ID16(lo))

				if uint32(id) != want || int(id.Upper16()) != hi || int(id.Lower16()) != lo || id.Uint32() != want {
					return mc.Failf("halves (%#x, %#x): id %#x, number %#x, split (%#x, %#x)", hi, lo, uint32(id), id.Uint32(), id.Upper16(), id.Lower16())
				}

				whole := storage.ID32(want)
				if storage.Combine16(whole.Upper16(), whole.Lower16()) != whole {
					return mc.Failf("id %#x does not re-pack", want)
				}
			}
		}

		x.Evals((s.To-s.From)*65536, (s.To-s.From)*65536)

		return nil
	})
}

// list is a case: a set of a kind.
type list struct {
	Kind   int   `json:"kind"`
	Values []int `json:"values"`
}

func sortOne(k kind, values []int) error {
	h := k.make(values)
	h.Sort()

	want := append([]int{}, values...)
	sort.Ints(want)

	if got := h.Values(); !same(got, want) {
		return mc.Failf("%s: sorting %s gave %s", k.Name, brief(values), brief(got))
	}

	return nil
}

func equalOne(k kind, a, b []int) error {
	ha, hb := k.make(a), k.make(b)
	want := same(a, b)

	if ha.Equal(hb) != want || hb.Equal(ha) != want {
		return mc.Failf("%s: %s and %s: equal %v / %v, expected %v", k.Name, brief(a), brief(b), ha.Equal(hb), hb.Equal(ha), want)
	}

	if !same(ha.Values(), a) || !same(hb.Values(), b) {
		return mc.Failf("%s: comparing %s and %s changed them to %s and %s", k.Name, brief(a), brief(b), brief(ha.Values()), brief(hb.Values()))
	}

	return nil
}

// patterns are deterministic orders of n elements out of 0..max.
func patterns(n, max int) map[string][]int {
	res := map[string][]int{}
	add := func(name string, f func(i int) int) {
		v := make([]int, n)
		for i := range v {
			v[i] = ((f(i) % (max + 1)) + max + 1) % (max + 1)
		}

		res[name] = v
	}

	add("ascending", func(i int) int { return i })
	add("descending", func(i int) int { return n - i })
	add("from the top", func(i int) int { return max - i })
	add("equal", func(int) int { return max })
	add("pipe", func(i int) int {
		if i < n/2 {
			return i
		}

		return n - i
	})
	add("saw", func(i int) int { return i % 7 })
	add("bit", func(i int) int { return (i & 1) * max })
	add("stride", func(i int) int { return i * 40503 })
	add("last smallest", func(i int) int {
		if i == n-1 {
			return 0
		}

		return i + 1
	})
	add("first largest", func(i int) int {
		if i == 0 {
			return max
		}

		return i - 1
	})

	return res
}

func checkSortEqual(c *mc.C) {
	c.Rule("Sorting: every permutation, every word over boundary ids, every 0/1 word up to a length, and fixed orders at every length; " +
		"comparing: every pair of small sets, every pair of one-element sets, every single-position change at every length. " +
		"Non-trivial are cases with at least two elements (sorting) or sets of equal length (comparing).")

	permMax := c.Pick(8, 10)

	for ki, k := range kinds {
		ki, k := ki, k

		mc.Family(c, k.Name+".permutations", fmt.Sprintf("all permutations of 0..%d distinct boundary ids", permMax), func(yield func(list) bool) {
			for n := 0; n <= permMax; n++ {
				base := make([]int, n)
				for i := range base {
					base[i] = i * k.Max / (permMax - 1)
				}

				stop := false

				if n <= 7 {
					mc.Permutations(base, func(p []int) bool { stop = !yield(list{ki, p}); return !stop })
				} else {
					// the case fixes the first two elements, the runner enumerates the rest
					for i := range base {
						for j := range base {
							if i != j && !yield(list{ki, append([]int{-n}, base[i], base[j])}) {
								return
							}
						}
					}
				}

				if stop {
					return
				}
			}
		}, func(x *mc.X, s list) error {
			if len(s.Values) == 0 || s.Values[0] >= 0 {
				x.Evals(1, boolInt(len(s.Values) > 1))
				return sortOne(k, s.Values)
			}

			var (
				rest []int
				err  error
				n    int
			)

			for i := 0; i < -s.Values[0]; i++ {
				if v := i * k.Max / (permMax - 1); v != s.Values[1] && v != s.Values[2] {
					rest = append(rest, v)
				}
			}

			mc.Permutations(rest, func(p []int) bool {
				n++
				err = sortOne(k, append([]int{s.Values[1], s.Values[2]}, p...))

				return err == nil && !x.Expired()
			})
			x.Evals(n, n)

			return err
		})

		wordLen := c.Pick(5, 6)
		vals := k.Values

		mc.Family(c, k.Name+".words", fmt.Sprintf("all lists of up to %d elements over %d boundary ids", wordLen, len(vals)), func(yield func(list) bool) {
			for n := 0; n <= wordLen; n++ {
				stop := false
				mc.Each(len(vals), n, func(w []int) bool {
					v := make([]int, n)
					for i := range w {
						v[i] = vals[w[i]]
					}

					stop = !yield(list{ki, v})

					return !stop
				})

				if stop {
					return
				}
			}
		}, func(x *mc.X, s list) error {
			x.Evals(1, boolInt(len(s.Values) > 1))
			return sortOne(k, s.Values)
		})

		type chunk struct {
			Len  int `json:"len"`
			From int `json:"from"`
			To   int `json:"to"`
		}

		bits := c.Pick(16, 20)

		mc.Family(c, k.Name+".zero-one", fmt.Sprintf("all 0/1 lists of up to %d elements", bits), func(yield func(chunk) bool) {
			for n := 1; n <= bits; n++ {
				for from := 0; from < 1<<n; from += 1024 {
					if !yield(chunk{n, from, min(from+1024, 1<<n)}) {
						return
					}
				}
			}
		}, func(x *mc.X, s chunk) error {
			v := make([]int, s.Len)

			for m := s.From; m < s.To; m++ {
				for i := range v {
					v[i] = m >> i & 1 * k.Max
				}

				if err := sortOne(k, v); err != nil {
					return err
				}
			}

			x.Evals(s.To-s.From, s.To-s.From)

			return nil
		})

		type sized struct {
			Len int `json:"len"`
		}

		maxLen := c.Pick(600, 3000)

		mc.Family(c, k.Name+".lengths", fmt.Sprintf("10 fixed orders at every length 0..%d and at lengths around 4096, 65535 and 70000", maxLen), func(yield func(sized) bool) {
			for n := 0; n <= maxLen; n++ {
				if !yield(sized{n}) {
					return
				}
			}

			for _, n := range []int{4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000} {
				if !yield(sized{n}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			for name, v := range patterns(s.Len, k.Max) {
				if err := sortOne(k, v); err != nil {
					return mc.Failf("order %q of %d: %v", name, s.Len, err)
				}

				x.Evals(1, boolInt(s.Len > 1))
			}

			return nil
		})

		var small [][]int
		for n := 0; n <= 3; n++ {
			mc.Combinations(vals, n, func(v []int) bool { small = append(small, v); return true })
		}

		type pair struct {
			A []int `json:"a"`
			B []int `json:"b"`
		}

		mc.Family(c, k.Name+".equal-small", "all pairs of sorted sets of up to 3 boundary ids", func(yield func(pair) bool) {
			for _, a := range small {
				for _, b := range small {
					if !yield(pair{a, b}) {
						return
					}
				}
			}
		}, func(x *mc.X, p pair) error {
			x.Evals(1, boolInt(len(p.A) == len(p.B)))
			return equalOne(k, p.A, p.B)
		})

		mc.Family(c, k.Name+".equal-long", "lists of lengths around every power of two to 2^17: positions around every power of two and the ends changed, cut there", func(yield func(sized) bool) {
			for bit := 9; bit <= 17; bit++ {
				for _, n := range []int{1<<bit - 1, 1 << bit, 1<<bit + 1, 3 << (bit - 1)} {
					if !yield(sized{n}) {
						return
					}
				}
			}
		}, func(x *mc.X, s sized) error {
			a := make([]int, s.Len)
			for i := range a {
				// sorted, with steps of two as far as ids allow
				a[i] = i * (k.Max - 1) / s.Len
			}

			ha, hb := k.make(a), k.New()

			if err := equalOne(k, a, append([]int{}, a...)); err != nil {
				return err
			}

			b := append([]int{}, a...)
			evals := 0

			for _, at := range longPositions(s.Len) {
				// all behind the position which have its value move up, so that the list stays sorted
				end := at
				for end < s.Len && a[end] == a[at] {
					end++
				}

				for i := at; i < end; i++ {
					b[i]++
				}

				if end < s.Len && b[end-1] > a[end] {
					return mc.Failf("harness: unsorted")
				}

				hb.Set(b)
				evals++

				if ha.Equal(hb) || hb.Equal(ha) {
					return mc.Failf("%s: lists of %d equal although positions %d..%d differ", k.Name, s.Len, at, end-1)
				}

				copy(b[at:end], a[at:end])
				hb.Set(a[:at])

				if ha.Equal(hb) || hb.Equal(ha) {
					return mc.Failf("%s: list of %d equal to its first %d elements", k.Name, s.Len, at)
				}
			}

			x.Evals(2*evals, 2*evals)

			return nil
		})

		mc.Family(c, k.Name+".equal-double", "sets of every size to 128 and some more: two elements changed such that simple digests stay the same", func(yield func(sized) bool) {
			for n := 2; n <= 128; n++ {
				if !yield(sized{n}) {
					return
				}
			}

			for _, n := range []int{200, 255, 256, 257, 512, 1000} {
				if n <= k.Max/2 && !yield(sized{n}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			a := mc.Spread(s.Len, k.Max)
			ha, hb := k.make(a), k.New()
			n := 0

			var problem error

			mc.Compensated(a, k.Max, func(b []int) bool {
				hb.Set(b)
				n++

				if ha.Equal(hb) || hb.Equal(ha) {
					problem = mc.Failf("%s: %v and %v are equal", k.Name, a, b)
				}

				return problem == nil
			})
			x.Evals(n, n)

			return problem
		})

		eqLen := c.Pick(300, 1200)

		mc.Family(c, k.Name+".equal-positions", fmt.Sprintf("at every length 1..%d: equal, every single position changed by every bit, one shorter, one longer", eqLen), func(yield func(sized) bool) {
			for n := 1; n <= eqLen; n++ {
				if !yield(sized{n}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			a := make([]int, s.Len)
			for i := range a {
				a[i] = i % (k.Max + 1)
			}

			sort.Ints(a)

			b := append([]int{}, a...)
			n := 0
			ha, hb := k.make(a), k.New()

			if err := equalOne(k, a, b); err != nil {
				return err
			}

			for i := range b {
				for bit := 1; bit <= k.Max; bit <<= 1 {
					// keep both lists sorted: everything from i on moves up, which differs at i too
					v := a[i] ^ bit
					if i > 0 && v < a[i-1] || i < s.Len-1 && v > a[i+1] {
						continue
					}

					b[i] = v
					hb.Set(b)
					n++

					if ha.Equal(hb) || hb.Equal(ha) {
						return mc.Failf("%s: lists of %d equal although position %d is %d and %d", k.Name, s.Len, i, a[i], b[i])
					}
				}

				b[i] = a[i]
			}

			for cut := 0; cut < s.Len; cut++ {
				hb.Set(a[:cut])

				if ha.Equal(hb) || hb.Equal(ha) {
					return mc.Failf("%s: list of %d equal to its first %d elements", k.Name, s.Len, cut)
				}
			}

			x.Evals(n+s.Len, n)

			return nil
		})
	}

	type row struct {
		From, To int
	}

	mc.Family(c, "set8.equal-pairs-of-one-two", "all pairs of one-element sets (2^16), all pairs of two-element sets {a<b},{c<d}", func(yield func(row) bool) {
		for a := 0; a < 256; a++ {
			if !yield(row{a, a + 1}) {
				return
			}
		}
	}, func(x *mc.X, r row) error {
		n := 0
		p, q := storage.Set8{0, 0}, storage.Set8{0, 0}

		for a := r.From; a < r.To; a++ {
			for b := 0; b < 256; b++ {
				if (storage.Set8{storage.ID8(a)}).EqualTo(storage.Set8{storage.ID8(b)}) != (a == b) {
					return mc.Failf("set8 {%d} and {%d}: wrong equality", a, b)
				}
			}

			for b := a + 1; b < 256; b++ {
				p[0], p[1] = storage.ID8(a), storage.ID8(b)

				for d := 0; d < 256; d++ {
					for e := d + 1; e < 256; e++ {
						q[0], q[1] = storage.ID8(d), storage.ID8(e)
						n++

						if p.EqualTo(q) != (a == d && b == e) {
							return mc.Failf("set8 {%d %d} and {%d %d}: wrong equality", a, b, d, e)
						}
					}
				}

				if x.Expired() {
					return nil
				}
			}
		}

		x.Evals(n+256, n+256)

		return nil
	})

	dense := func(from, to, size int, yield func(v []int)) {
		var values []int
		for v := from; v < to; v++ {
			values = append(values, v)
		}

		mc.Combinations(values, size, func(v []int) bool { yield(v); return true })
	}

	for _, bits := range []int{8, 16} {
		mc.Family(c, fmt.Sprintf("set%d.equal-dense", bits), fmt.Sprintf("all pairs of 2-element sets over 0..%d, of 3-element sets over 0..%d, of 4-element sets over 0..%d", c.Pick(95, 159), c.Pick(23, 31), c.Pick(15, 19)), func(yield func([2]int) bool) {
			for i, top := range []int{c.Pick(96, 160), c.Pick(24, 32), c.Pick(16, 20)} {
				size := i + 2

				for part := 0; part < 16; part++ {
					if !yield([2]int{size*1000 + top, part}) {
						return
					}
				}
			}
		}, func(x *mc.X, p [2]int) error {
			var all8 []storage.Set8

			var all16 []storage.Set16

			dense(0, p[0]%1000, p[0]/1000, func(v []int) {
				s8, s16 := storage.Set8{}, storage.Set16{}
				for _, id := range v {
					s8, s16 = append(s8, storage.ID8(id)), append(s16, storage.ID16(id))
				}

				all8, all16 = append(all8, s8), append(all16, s16)
			})

			for i := p[1]; i < len(all8); i += 16 {
				for j := range all8 {
					if bits == 8 && all8[i].EqualTo(all8[j]) != (i == j) || bits == 16 && all16[i].EqualTo(all16[j]) != (i == j) {
						return mc.Failf("%v and %v: wrong equality", all16[i], all16[j])
					}
				}

				x.Evals(len(all8), len(all8)-1)

				if x.Expired() {
					return nil
				}
			}

			return nil
		})
	}

	step := c.Pick(257, 1)

	mc.Family(c, "set16.equal-pairs-of-one", fmt.Sprintf("one-element sets: every id against every id (first id in steps of %d), and against every id differing in one bit", step), func(yield func(row) bool) {
		for a := 0; a < 65536; a += 256 {
			if !yield(row{a, a + 256}) {
				return
			}
		}
	}, func(x *mc.X, r row) error {
		n := 0
		p, q := storage.Set16{0}, storage.Set16{0}

		for a := r.From; a < r.To; a++ {
			p[0] = storage.ID16(a)

			for bit := 0; bit < 16; bit++ {
				q[0] = storage.ID16(a ^ 1<<bit)
				n++

				if p.EqualTo(q) {
					return mc.Failf("set16 {%d} and {%d} are equal", a, q[0])
				}
			}

			if a%step != 0 {
				continue
			}

			for b := 0; b < 65536; b++ {
				q[0] = storage.ID16(b)
				n++

				if p.EqualTo(q) != (a == b) {
					return mc.Failf("set16 {%d} and {%d}: wrong equality", a, b)
				}
			}
		}

		x.Evals(n, n)

		return nil
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}

	return 0
}

// longPositions lists the positions around powers of two and the ends of a long list.
func longPositions(n int) []int {
	found := map[int]bool{0: true, n - 1: true, n / 2: true, n - 2: true}

	for bit := 1; bit < n; bit <<= 1 {
		for _, at := range []int{bit - 1, bit, bit + 1, n - bit, n - 1 - bit} {
			if at >= 0 && at < n {
				found[at] = true
			}
		}
	}

	res := make([]int, 0, len(found))
	for at := range found {
		res = append(res, at)
	}

	sort.Ints(res)

	return res
}
