//go:build go1.22

// Package main checks the id set storage (pkg/storage): C01-C07.
package main

import (
	"fmt"
	"io"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/storage"
)

// handle is one id set of any width seen as plain numbers.
type handle interface {
	Values() []int
	Set(values []int)
	WriteTo(w io.Writer) (int64, error)
	ReadFrom(r io.Reader) (int64, error)
	Sort()
	Equal(another handle) bool
	Len() int
}

type h8 struct{ s storage.Set8 }
type h16 struct{ s storage.Set16 }

func set8(values []int, extraCap int) storage.Set8 {
	s := make(storage.Set8, len(values), len(values)+max(extraCap, 0))
	for i, v := range values {
		s[i] = storage.ID8(v)
	}

	return s
}

func set16(values []int, extraCap int) storage.Set16 {
	s := make(storage.Set16, len(values), len(values)+max(extraCap, 0))
	for i, v := range values {
		s[i] = storage.ID16(v)
	}

	return s
}

func ints[T ~uint8 | ~uint16](s []T) []int {
	res := make([]int, len(s))
	for i, v := range s {
		res[i] = int(v)
	}

	return res
}

func (h *h8) Values() []int                       { return ints(h.s) }
func (h *h8) Set(v []int)                         { h.s = set8(v, 0) }
func (h *h8) WriteTo(w io.Writer) (int64, error)  { return h.s.WriteTo(w) }
func (h *h8) ReadFrom(r io.Reader) (int64, error) { return h.s.ReadFrom(r) }
func (h *h8) Sort()                               { h.s.Sort() }
func (h *h8) Equal(a handle) bool                 { return h.s.EqualTo(a.(*h8).s) }
func (h *h8) Len() int                            { return len(h.s) }

func (h *h16) Values() []int                       { return ints(h.s) }
func (h *h16) Set(v []int)                         { h.s = set16(v, 0) }
func (h *h16) WriteTo(w io.Writer) (int64, error)  { return h.s.WriteTo(w) }
func (h *h16) ReadFrom(r io.Reader) (int64, error) { return h.s.ReadFrom(r) }
func (h *h16) Sort()                               { h.s.Sort() }
func (h *h16) Equal(a handle) bool                 { return h.s.EqualTo(a.(*h16).s) }
func (h *h16) Len() int                            { return len(h.s) }

// kind describes a set width.
type kind struct {
	Name   string
	Width  int // bytes of one element and of the length prefix
	Max    int // largest element and largest length
	New    func() handle
	Values []int // boundary element values
}

var kinds = []kind{
	{"set8", 1, 0xff, func() handle { return &h8{} }, []int{0, 1, 2, 127, 128, 254, 255}},
	{"set16", 2, 0xffff, func() handle { return &h16{} }, []int{0, 1, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff}},
}

// encode is the specified encoding, written independently of the implementation.
func (k kind) encode(values []int) []byte {
	res := make([]byte, 0, (len(values)+1)*k.Width)
	put := func(v int) {
		if k.Width == 2 {
			res = append(res, byte(v>>8))
		}

		res = append(res, byte(v))
	}

	put(len(values))

	for _, v := range values {
		put(v)
	}

	return res
}

func (k kind) make(values []int) handle {
	h := k.New()
	h.Set(values)

	return h
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

// brief prints long lists shortly.
func brief(v []int) string {
	if len(v) > 24 {
		return fmt.Sprintf("%v...(%d)", v[:24], len(v))
	}

	return fmt.Sprint(v)
}

// store is a table or a collection of any width seen as plain numbers.
type store interface {
	Index(values []int, extraCap int, scribble bool) (id int, panicked string)
	Find(values []int) (int, bool)
	Get(id int) ([]int, bool)
	// Want tells the id expected for the n-th set of the given size when it is the m-th one overall.
	Want(size, nthOfSize, nth int) int
	MaxID() int
}

type t8 struct {
	t   storage.Table8
	buf storage.Set8
}

type t16 struct {
	t   storage.Table16
	buf storage.Set16
}

type c8 struct {
	t   storage.Collection8x8
	buf storage.Set8
}

type c16 struct {
	t   storage.Collection16
	buf storage.Set16
}

func caught(f func() int) (id int, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()

	return f(), ""
}

// oneBuffer instead of an extra capacity: the caller passes all its sets in one slice it fills anew for every call.
const oneBuffer = -1

// refill copies the set into the caller's only buffer.
func refill[S ~[]E, E any](buf *S, s S) S {
	if cap(*buf) < len(s) || *buf == nil {
		*buf = make(S, len(s), len(s)+8)
	}

	return append((*buf)[:0], s...)
}

// scrub overwrites the whole backing array of the caller's slice, as a caller re-using it would do.
func scrub8(s storage.Set8) {
	s = s[:cap(s)]
	for i := range s {
		s[i] ^= 0x5a
	}
}

func scrub16(s storage.Set16) {
	s = s[:cap(s)]
	for i := range s {
		s[i] ^= 0x5aa5
	}
}

func (t *t8) Index(v []int, extraCap int, scribble bool) (int, string) {
	s := set8(v, extraCap)
	if extraCap == oneBuffer {
		s = refill(&t.buf, s)
	}

	id, p := caught(func() int { return int(t.t.Index(s)) })

	if scribble {
		scrub8(s)
	}

	return id, p
}

func (t *t8) Find(v []int) (int, bool) {
	s := set8(v, 0)
	if t.buf != nil { // a caller with a buffer searches with it, too
		s = refill(&t.buf, s)
	}

	id, ok := t.t.Find(s)

	return int(id), ok
}

func (t *t8) Get(id int) ([]int, bool)   { s, ok := t.t.Get(storage.ID8(id)); return ints(s), ok }
func (t *t8) Want(_, _ int, nth int) int { return nth }
func (t *t8) MaxID() int                 { return 0xff }

func (t *t16) Index(v []int, extraCap int, scribble bool) (int, string) {
	s := set16(v, extraCap)
	if extraCap == oneBuffer {
		s = refill(&t.buf, s)
	}

	id, p := caught(func() int { return int(t.t.Index(s)) })

	if scribble {
		scrub16(s)
	}

	return id, p
}

func (t *t16) Find(v []int) (int, bool) {
	s := set16(v, 0)
	if t.buf != nil { // a caller with a buffer searches with it, too
		s = refill(&t.buf, s)
	}

	id, ok := t.t.Find(s)

	return int(id), ok
}

func (t *t16) Get(id int) ([]int, bool)   { s, ok := t.t.Get(storage.ID16(id)); return ints(s), ok }
func (t *t16) Want(_, _ int, nth int) int { return nth }
func (t *t16) MaxID() int                 { return 0xffff }

func (t *c8) Index(v []int, extraCap int, scribble bool) (int, string) {
	s := set8(v, extraCap)
	if extraCap == oneBuffer {
		s = refill(&t.buf, s)
	}

	id, p := caught(func() int { return int(t.t.Index(s)) })

	if scribble {
		scrub8(s)
	}

	return id, p
}

func (t *c8) Find(v []int) (int, bool) {
	s := set8(v, 0)
	if t.buf != nil { // a caller with a buffer searches with it, too
		s = refill(&t.buf, s)
	}

	id, ok := t.t.Find(s)

	return int(id), ok
}

func (t *c8) Get(id int) ([]int, bool)        { s, ok := t.t.Get(storage.ID16(id)); return ints(s), ok }
func (t *c8) Want(size, nthOfSize, _ int) int { return (size-1)<<8 | nthOfSize }
func (t *c8) MaxID() int                      { return 0xffff }

func (t *c16) Index(v []int, extraCap int, scribble bool) (int, string) {
	s := set16(v, extraCap)
	if extraCap == oneBuffer {
		s = refill(&t.buf, s)
	}

	id, p := caught(func() int { return int(t.t.Index(s)) })

	if scribble {
		scrub16(s)
	}

	return id, p
}

func (t *c16) Find(v []int) (int, bool) {
	s := set16(v, 0)
	if t.buf != nil { // a caller with a buffer searches with it, too
		s = refill(&t.buf, s)
	}

	id, ok := t.t.Find(s)

	return int(id), ok
}

func (t *c16) Get(id int) ([]int, bool)        { s, ok := t.t.Get(storage.ID32(id)); return ints(s), ok }
func (t *c16) Want(size, nthOfSize, _ int) int { return (size-1)<<16 | nthOfSize }
func (t *c16) MaxID() int                      { return 0xffffffff }

func newStore(name string) store {
	switch name {
	case "table8":
		return new(t8)
	case "table16":
		return new(t16)
	case "collection8":
		return new(c8)
	case "collection16":
		return new(c16)
	}

	panic("unknown store " + name)
}

// model is the reference: sets in the order of first submission.
type model struct {
	impl   store
	ids    map[string]int
	sets   map[int][]int
	bySize map[int]int
}

func newModel(name string) *model {
	return &model{impl: newStore(name), ids: map[string]int{}, sets: map[int][]int{}, bySize: map[int]int{}}
}

func key(sorted []int) string { return fmt.Sprint(sorted) }

// index submits a set and checks the answer.
func (m *model) index(values []int, extraCap int, scribble bool) error {
	sorted := mc.Sorted(values)
	k := key(sorted)
	want, known := m.ids[k]

	if !known && len(values) > 0 {
		want = m.impl.Want(len(values), m.bySize[len(values)], len(m.sets))
	}

	id, p := m.impl.Index(values, extraCap, scribble)

	switch {
	case len(values) == 0 && p == "":
		return mc.Failf("submitting an empty set returned id %d instead of a panic", id)
	case len(values) == 0:
		return nil
	case p != "":
		return mc.Failf("submitting %s panicked: %s", brief(values), p)
	case id != want:
		return mc.Failf("submitting %s returned id %#x, expected %#x (known before: %v)", brief(values), id, want, known)
	}

	if !known {
		m.ids[k] = id
		m.sets[id] = sorted
		m.bySize[len(values)]++
	}

	return nil
}

// find searches a set (sorted first) and checks the answer.
func (m *model) find(values []int) error {
	sorted := mc.Sorted(values)
	want, known := m.ids[key(sorted)]
	id, found := m.impl.Find(sorted)

	if found != known || found && id != want {
		return mc.Failf("searching %s: got (%#x, %v), expected (%#x, %v)", brief(sorted), id, found, want, known)
	}

	return nil
}

// get fetches an id and checks the answer.
func (m *model) get(id int) error {
	want, known := m.sets[id]
	got, found := m.impl.Get(id)

	if found != known || found && !same(got, want) {
		return mc.Failf("getting %#x: got (%s, %v), expected (%s, %v)", id, brief(got), found, brief(want), known)
	}

	return nil
}

// sweep checks every known set and id, ids around the known ones and the given other sets.
func (m *model) sweep(domain [][]int) error {
	maxID := m.impl.MaxID()

	for id, s := range m.sets {
		if err := m.get(id); err != nil {
			return err
		}

		if err := m.find(s); err != nil {
			return err
		}

		for _, other := range []int{id + 1, id + 256, id + 65536, id ^ 0x80, id ^ 0x100, id ^ 0x8000, id ^ 0x10000} {
			if other <= maxID {
				if err := m.get(other); err != nil {
					return err
				}
			}
		}
	}

	for _, id := range []int{0, 1, 255, 256, 511, 512, 0xff00, 0xffff, 0x10000, 0x1ffff, 0xffff0000, 0xffffffff, maxID} {
		if id <= maxID {
			if err := m.get(id); err != nil {
				return err
			}
		}
	}

	for _, s := range domain {
		if err := m.find(s); err != nil {
			return err
		}
	}

	return m.find(nil)
}

// state is the canonical observable state.
func (m *model) state() string {
	ids := make([]int, 0, len(m.sets))
	for id := range m.sets {
		ids = append(ids, id)
	}

	res := ""
	for _, id := range mc.Sorted(ids) {
		res += fmt.Sprintf("%x=%v;", id, m.sets[id])
	}

	return res
}
