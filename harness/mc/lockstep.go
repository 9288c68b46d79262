//go:build go1.22

package mc

import (
	"fmt"
	"strings"
	"sync"
)

// Lockstep describes an implementation and its reference model driven side by side.
type Lockstep[S any] struct {
	Name string
	Ops  []string
	New  func() S
	// Step applies operation op to implementation and model and compares everything observable.
	Step func(s S, op int) error
	// Final compares everything observable after a whole sequence (optional; Step may then look only at its own result).
	Final func(s S) error
	// Key is the canonical observable state, used to count states and (only in BFS) to merge them.
	Key func(s S) string
}

// Path is a case of a lockstep exploration: run Ops, then, unless Exact, every continuation up to Depth.
type Path struct {
	Ops   []int `json:"ops"`
	Depth int   `json:"depth,omitempty"`
	Names any   `json:"names,omitempty"`
}

func (l Lockstep[S]) names(ops []int) []string {
	res := make([]string, len(ops))
	for i, op := range ops {
		res[i] = l.Ops[op]
	}

	return res
}

func (l Lockstep[S]) step(s S, op int) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = Failf("panic: %v", p)
		}
	}()

	return l.Step(s, op)
}

// run executes ops from scratch, comparing after each step from index `from` on (earlier ones are compared too, cheap).
func (l Lockstep[S]) run(x *X, ops []int, from int) error {
	s := l.New()

	for i, op := range ops {
		if err := l.step(s, op); err != nil {
			return &Violation{
				Replay: Path{Ops: append([]int{}, ops[:i+1]...), Names: l.names(ops[:i+1])},
				Msg:    fmt.Sprintf("after [%s]: %v", strings.Join(l.names(ops[:i+1]), "; "), err),
			}
		}

		if i >= from && l.Key != nil {
			x.State(l.Name + l.Key(s))
		}
	}

	if l.Final != nil {
		if err := guardedFinal(l.Final, s); err != nil {
			return &Violation{
				Replay: Path{Ops: append([]int{}, ops...), Names: l.names(ops)},
				Msg:    fmt.Sprintf("after [%s]: %v", strings.Join(l.names(ops), "; "), err),
			}
		}
	}

	x.Trans(len(ops))
	x.Evals(1, 1)
	x.Trace(1)

	return nil
}

func guardedFinal[S any](final func(s S) error, s S) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = Failf("panic: %v", p)
		}
	}()

	return final(s)
}

// Sequences runs every operation sequence of up to depth operations from scratch, without merging any states.
// Sequences shorter than depth are run as prefixes, and on their own if there is a Final comparison.
func Sequences[S any](c *C, l Lockstep[S], depth int) {
	if l.Final != nil {
		for d := 1; d < depth; d++ {
			sequences(c, l, d)
		}
	}

	sequences(c, l, depth)
}

func sequences[S any](c *C, l Lockstep[S], depth int) {
	n := len(l.Ops)
	split := 2

	if depth < 2 {
		split = depth
	}

	space := fmt.Sprintf("all sequences of %d operations out of %d", depth, n)
	Family(c, fmt.Sprintf("%s.sequences.%d", l.Name, depth), space, func(yield func(Path) bool) {
		each(n, split, func(prefix []int) bool {
			return yield(Path{Ops: append([]int{}, prefix...), Depth: depth})
		})
	}, func(x *X, p Path) error {
		if p.Depth <= len(p.Ops) {
			return l.run(x, p.Ops, 0)
		}

		ops := append([]int{}, p.Ops...)

		var failure error

		last := make([]int, 0, p.Depth)
		each(n, p.Depth-len(p.Ops), func(rest []int) bool {
			ops = append(ops[:len(p.Ops)], rest...)
			from := 0

			for from < len(last) && last[from] == ops[from] {
				from++
			}

			last = append(last[:0], ops...)
			failure = l.run(x, ops, from)

			return failure == nil && !x.Expired()
		})

		return failure
	})
}

// each enumerates all n-ary words of length k in lexicographic order.
func each(n, k int, f func(word []int) bool) {
	word := make([]int, k)

	for {
		if !f(word) {
			return
		}

		i := k - 1
		for i >= 0 {
			word[i]++
			if word[i] < n {
				break
			}

			word[i] = 0
			i--
		}

		if i < 0 {
			return
		}
	}
}

// Each enumerates all n-ary words of length k.
func Each(n, k int, f func(word []int) bool) { each(n, k, f) }

// BFS explores reachable states breadth first, merging states with equal keys, up to depth operations.
func BFS[S any](c *C, l Lockstep[S], depth, maxStates int) {
	var (
		mu        sync.Mutex
		seen      = map[string]bool{}
		truncated bool
	)

	frontier := [][]int{{}}

	for d := 1; d <= depth && len(frontier) > 0; d++ {
		var next [][]int

		current := frontier
		space := fmt.Sprintf("every one of %d operations in every state first reached by %d operations", len(l.Ops), d-1)

		Family(c, fmt.Sprintf("%s.bfs", l.Name), space, func(yield func(Path) bool) {
			for _, hist := range current {
				if !yield(Path{Ops: hist, Depth: 1}) {
					return
				}
			}
		}, func(x *X, p Path) error {
			if p.Depth == 0 {
				return l.run(x, p.Ops, 0)
			}

			for op := range l.Ops {
				s := l.New()
				hist := append(append(make([]int, 0, len(p.Ops)+1), p.Ops...), op)

				for i, o := range hist {
					if err := l.step(s, o); err != nil {
						return &Violation{
							Replay: Path{Ops: hist[:i+1], Names: l.names(hist[:i+1])},
							Msg:    fmt.Sprintf("after [%s]: %v", strings.Join(l.names(hist[:i+1]), "; "), err),
						}
					}
				}

				x.Trans(1)
				x.Evals(1, 1)
				x.Trace(1)

				key := l.Key(s)
				x.State(l.Name + key)

				if x.quiet {
					continue
				}

				mu.Lock()
				if !seen[key] {
					if len(seen) < maxStates {
						seen[key] = true
						next = append(next, hist)
					} else {
						truncated = true
					}
				}
				mu.Unlock()
			}

			return nil
		})

		if c.replay != nil {
			return
		}

		frontier = next
	}

	if len(frontier) == 0 && !truncated {
		c.Extra(l.Name+".bfs_fixpoint", true)
	}

	if truncated {
		c.note(familyReport{Name: l.Name + ".bfs", Space: fmt.Sprintf("stopped adding states at %d", maxStates)})
	}
}

// Compensated yields the sorted lists which differ from a sorted list at two places, such that what simple digests
// make of both (sums, polynomials, exclusive ors) is often the same.
func Compensated(base []int, top int, yield func([]int) bool) {
	deltas := [][2]int{{1, -1}, {-1, 1}, {1, 1}, {1, -31}, {-1, 31}, {1, -33}, {-1, 33}, {1, -37}, {-1, 37}, {2, -2}, {16, -16}, {-1, 17}, {1, -17}, {1, -256}, {-1, 256}, {-1, 257}, {-1, 65599}, {256, -256}}
	fits := func(w []int, i int) bool {
		return w[i] >= 0 && w[i] <= top && (i == 0 || w[i-1] < w[i]) && (i == len(w)-1 || w[i] < w[i+1])
	}

	for i := range base {
		for j := i + 1; j < len(base); j++ {
			if step := j - i; len(base) > 20 && step&(step-1) != 0 && !(i < 2 && j >= len(base)-2) {
				continue
			}

			for _, d := range deltas {
				w := append([]int{}, base...)
				w[i] += d[0]
				w[j] += d[1]

				if fits(w, i) && fits(w, j) && !yield(w) {
					return
				}
			}
		}
	}
}

// Spread is a sorted list of n values with gaps as wide as possible.
func Spread(n, top int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = (2*i + 1) * (top + 1) / (2 * n)
	}

	return res
}
