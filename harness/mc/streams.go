//go:build go1.22

package mc

import (
	"errors"
	"io"
)

// ErrInjected is the failure injected by test readers and writers.
var ErrInjected = errors.New("injected failure")

// Reader delivers Data in pieces of the given sizes (then in one piece), finishing with End.
type Reader struct {
	Data   []byte
	Pieces []int // sizes of consecutive pieces, a zero means a read returning no data and no error
	End    error // returned when data is over, io.EOF by default
	Joined bool  // deliver End together with the last piece instead of after it
	Break  int   // position plus one where one read fails with End (an injected failure by default) and later ones go on
	Taken  int   // number of bytes taken so far
	Reads  int
	broken bool
}

func (r *Reader) Read(p []byte) (n int, err error) {
	r.Reads++

	end := r.End

	if r.Break > 0 && !r.broken && r.Taken == r.Break-1 {
		r.broken = true

		if end == nil {
			end = ErrInjected
		}

		return 0, end
	}

	if end == nil || r.Break > 0 {
		end = io.EOF
	}

	if r.Taken == len(r.Data) {
		return 0, end
	}

	if len(p) == 0 {
		return 0, nil
	}

	n = len(r.Data) - r.Taken

	if r.Break > 0 && !r.broken && n > r.Break-1-r.Taken {
		n = r.Break - 1 - r.Taken
	}

	if len(r.Pieces) > 0 {
		if r.Pieces[0] < n {
			n = r.Pieces[0]
		}

		if n > len(p) {
			n = len(p)
			r.Pieces[0] -= n
		} else {
			r.Pieces = r.Pieces[1:]
		}
	}

	if n > len(p) {
		n = len(p)
	}

	copy(p, r.Data[r.Taken:r.Taken+n])
	r.Taken += n

	if r.Joined && r.Taken == len(r.Data) {
		return n, end
	}

	return n, nil
}

// Writer accepts Limit bytes and then fails.
type Writer struct {
	Limit int
	Mode  string // "error": partial data and an error; "refuse": a write exceeding the limit takes nothing; "short": partial data, io.ErrShortWrite;
	// "once", "once-short": as refuse and short, but only once, later writes are taken
	Data   []byte
	Failed bool
}

func (w *Writer) Write(p []byte) (n int, err error) {
	if len(w.Data)+len(p) <= w.Limit || w.Failed && (w.Mode == "once" || w.Mode == "once-short") {
		w.Data = append(w.Data, p...)
		return len(p), nil
	}

	w.Failed = true

	switch w.Mode {
	case "refuse", "once":
		return 0, ErrInjected
	case "short", "once-short":
		n = w.Limit - len(w.Data)
		w.Data = append(w.Data, p[:n]...)

		return n, io.ErrShortWrite
	default:
		n = w.Limit - len(w.Data)
		w.Data = append(w.Data, p[:n]...)

		return n, ErrInjected
	}
}

// Compositions enumerates all ways to cut n bytes into pieces.
func Compositions(n int, f func(pieces []int) bool) {
	if n <= 0 {
		f(nil)
		return
	}

	for mask := 0; mask < 1<<(n-1); mask++ {
		var pieces []int

		size := 1

		for i := 0; i < n-1; i++ {
			if mask&(1<<i) != 0 {
				pieces = append(pieces, size)
				size = 0
			}

			size++
		}

		if !f(append(pieces, size)) {
			return
		}
	}
}

// Permutations enumerates all permutations of in.
func Permutations[T any](in []T, f func(p []T) bool) {
	p := append([]T{}, in...)

	var rec func(k int) bool

	rec = func(k int) bool {
		if k == len(p) {
			return f(append([]T{}, p...))
		}

		for i := k; i < len(p); i++ {
			p[k], p[i] = p[i], p[k]
			if !rec(k + 1) {
				return false
			}
			p[k], p[i] = p[i], p[k]
		}

		return true
	}

	rec(0)
}

// Combinations enumerates all k-element subsets of in, in order.
func Combinations[T any](in []T, k int, f func(c []T) bool) bool {
	var rec func(from int, cur []T) bool

	rec = func(from int, cur []T) bool {
		if len(cur) == k {
			return f(append([]T{}, cur...))
		}

		for i := from; i <= len(in)-(k-len(cur)); i++ {
			if !rec(i+1, append(cur, in[i])) {
				return false
			}
		}

		return true
	}

	return rec(0, nil)
}
