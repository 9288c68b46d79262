//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

// tagModel is a tag list next to its reference.
type tagModel struct {
	idx   dag.Idx
	names []string
	par   []string
}

func (m *tagModel) pos(name string) int {
	for i, n := range m.names {
		if n == name {
			return i
		}
	}

	return -1
}

func stored(parent string) string {
	if parent == "" {
		return empty
	}

	return parent
}

func (m *tagModel) register(name, parent string) error {
	want := m.pos(name)
	if want < 0 {
		want = len(m.names)
		m.names = append(m.names, name)
		m.par = append(m.par, stored(parent))
	}

	if id := m.idx.Index(dag.TagName(name), dag.TagName(parent)); int(id) != want {
		return mc.Failf("registering %q under %q gave id %d, expected %d", name, parent, id, want)
	}

	return nil
}

func (m *tagModel) find(name string) error {
	want := m.pos(name)
	id, found := m.idx.Find(dag.TagName(name))

	if found != (want >= 0) || found && int(id) != want {
		return mc.Failf("searching %q: (%d, %v), expected %d", name, id, found, want)
	}

	return nil
}

func (m *tagModel) get(id int) error {
	tag, found := m.idx.Get(dag.TagID(id))
	if found != (id < len(m.names)) {
		return mc.Failf("getting %d: %v, list holds %d", id, found, len(m.names))
	}

	if found && (string(tag.Name) != m.names[id] || string(tag.Parent) != m.par[id]) {
		return mc.Failf("getting %d: %q/%q, expected %q/%q", id, tag.Parent, tag.Name, m.par[id], m.names[id])
	}

	return nil
}

func (m *tagModel) sweep(domain []string) error {
	if m.idx.Len() != len(m.names) {
		return mc.Failf("list holds %d tags, expected %d", m.idx.Len(), len(m.names))
	}

	for _, name := range append(append([]string{}, m.names...), domain...) {
		if err := m.find(name); err != nil {
			return err
		}
	}

	for id := 0; id < 256; id++ {
		if err := m.get(id); err != nil {
			return err
		}
	}

	return nil
}

func checkTagList(c *mc.C) {
	c.Rule("Lockstep of the real tag list with a reference list: all sequences of registrations, searches and fetches up to a depth over names differing in one " +
		"byte, case or kind and over parents including the empty and the reserved one, from several initial lists; plus every fill level up to 256. States are distinct reference contents.")

	domain := []string{"NOUN", "NOUo", "noun", "VERB", "GNdr", "xOUN", "ёж", "   x", "NOU", "NOUNS", "----x", "x---"}

	make2 := func(name string, initial []tag, names, parents []string, searches bool, sweeping bool) mc.Lockstep[*tagModel] {
		var (
			ops []string
			run []func(m *tagModel) error
		)

		for _, n := range names {
			for _, p := range parents {
				ops = append(ops, fmt.Sprintf("register %q under %q", n, p))
				run = append(run, func(m *tagModel) error { return m.register(n, p) })
			}

			if searches {
				ops = append(ops, fmt.Sprintf("search %q", n))
				run = append(run, func(m *tagModel) error { return m.find(n) })
			}
		}

		if searches {
			for id := 0; id < 3; id++ {
				ops = append(ops, fmt.Sprintf("get %d", id))
				run = append(run, func(m *tagModel) error { return m.get(id) })
			}
		}

		l := mc.Lockstep[*tagModel]{
			Name: name, Ops: ops,
			New: func() *tagModel {
				m := &tagModel{}
				given := make([]dag.Tag, 0, len(initial)+2)

				for _, t := range initial {
					given = append(given, t.tag())
					m.names = append(m.names, t.N)
					m.par = append(m.par, stored(t.P))
				}

				m.idx = dag.NewIndex(given...)

				for i := range given { // a caller re-using its slice
					given[i] = dag.Tag{Parent: "ZZZZ", Name: "ZZZZ"}
				}

				return m
			},
			Key: func(m *tagModel) string { return fmt.Sprint(m.names, m.par) },
		}

		if sweeping {
			l.Step = func(m *tagModel, op int) error {
				if err := run[op](m); err != nil {
					return err
				}

				return m.sweep(domain)
			}
		} else {
			l.Step = func(m *tagModel, op int) error { return run[op](m) }
			l.Final = func(m *tagModel) error { return m.sweep(domain) }
		}

		return l
	}

	initials := map[string][]tag{
		"empty":   nil,
		"one":     {{"", "VERB"}},
		"several": {{"POST", "NOUN"}, {empty, "GNdr"}, {"", "masc"}},
	}

	for _, name := range []string{"empty", "one", "several"} {
		initial := initials[name]
		mc.Sequences(c, make2(name+".swept", initial, []string{"NOUN", "NOUo", "VERB", "noun"}, []string{"", "POST"}, false, true), c.Pick(4, 6))
		mc.Sequences(c, make2(name+".mixed", initial, []string{"NOUN", "VERB"}, []string{"", "POST", empty}, true, false), c.Pick(4, 6))
		mc.BFS(c, make2(name+".wide", initial, domain[:8], []string{"", "NOUN"}, false, true), c.Pick(4, 5), 100000)
	}

	type pair struct {
		A, B string
	}

	mc.Family(c, "name-pairs", "all pairs of names differing in one bit, of one-letter names, and of permutations of letters", func(yield func(pair) bool) {
		for _, base := range []string{"NOUN", "----", "    ", "\xff\x00\x80\x7f"} {
			for pos := 0; pos < 4; pos++ {
				for v := 0; v < 256; v++ {
					b := []byte(base)
					b[pos] = byte(v)

					if !yield(pair{base, string(b)}) {
						return
					}
				}
			}
		}

		var all []string
		mc.Permutations([]byte("ABCD"), func(p []byte) bool { all = append(all, string(p)); return true })

		for i := 0; i < 256; i++ {
			all = append(all, fmt.Sprintf("%c%c%c%c", 'a'+i%4, 'a'+i/4%4, 'a'+i/16%4, 'a'+i/64%4))
		}

		// names of other lengths are names too
		for n := 0; n <= c.Pick(4, 5); n++ {
			mc.Each(4, n, func(list []int) bool {
				b := make([]byte, n)
				for i, l := range list {
					b[i] = "\x00 -A"[l]
				}

				all = append(all, string(b))

				return true
			})
		}

		for _, a := range all {
			for _, b := range all {
				if !yield(pair{a, b}) {
					return
				}
			}
		}
	}, func(x *mc.X, p pair) error {
		m := &tagModel{idx: dag.NewIndex()}
		if err := m.find(p.A); err != nil {
			return err
		}

		for _, n := range []string{p.A, p.B, p.A} {
			if err := m.register(n, p.B); err != nil {
				return err
			}

			for _, f := range []string{p.A, p.B} {
				if err := m.find(f); err != nil {
					return err
				}
			}
		}

		x.Trans(3)
		x.Trace(1)
		x.Evals(1, boolInt(p.A != p.B))
		x.State(fmt.Sprint(p))

		for id := 0; id < 4; id++ {
			if err := m.get(id); err != nil {
				return err
			}
		}

		return nil
	})

	type fill struct {
		Initial int `json:"initial"`
		Stride  int `json:"stride"`
	}

	mc.Family(c, "fill", "0..256 initial tags filled up to 256, everything compared at every level, three orders of names", func(yield func(fill) bool) {
		for initial := 0; initial <= 256; initial += c.Pick(16, 1) {
			for _, stride := range []int{1, 255, 77} {
				if !yield(fill{initial, stride}) {
					return
				}
			}
		}
	}, func(x *mc.X, s fill) error {
		name := func(i int) string { return unique(i * s.Stride & 255).N }
		m := &tagModel{}

		var given []dag.Tag

		for i := 0; i < s.Initial; i++ {
			m.names = append(m.names, name(i))
			m.par = append(m.par, name(i/2))
			given = append(given, dag.Tag{Parent: dag.TagName(name(i / 2)), Name: dag.TagName(name(i))})
		}

		m.idx = dag.NewIndex(given...)

		for i := s.Initial; i < 256; i++ {
			if err := m.sweep(nil); err != nil {
				return err
			}

			if err := m.register(name(i), name(i/2)); err != nil {
				return err
			}

			if err := m.register(name(i/3), "ABCD"); err != nil {
				return err
			}

			x.Trans(2)
			x.State(fmt.Sprint("fill", s, i))
		}

		x.Trace(1)
		x.Evals(1, 1)

		return m.sweep(domain)
	})
}

func checkTagStreams(c *mc.C) {
	c.Rule("Fault points: streams ending or failing after every byte of names, tags and lists (all error kinds, whole and byte by byte delivery, every way to cut " +
		"small encodings into pieces), destinations failing after every byte in three ways. Every evaluation is a distinct pair of data and fault.")

	ends := map[string]error{"eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "injected": mc.ErrInjected}

	// subject: 0 is a name, 1 a tag, 2 a list
	type subject struct {
		Kind int   `json:"kind"`
		Tags []tag `json:"tags"`
	}

	encode := func(s subject) []byte {
		switch s.Kind {
		case 0:
			data, _ := encodeName(s.Tags[0].N)
			return data
		case 1:
			data, _ := encodeTag(s.Tags[0])
			return data
		}

		data, _ := encodeList(s.Tags)

		return data
	}

	read := func(s subject, r io.Reader, filled bool) (wrong error, err error) {
		reader := binutils.NewBinaryReader(r)

		switch s.Kind {
		case 0:
			var name dag.TagName
			if filled {
				name = "OLDN"
			}

			if err = name.BinaryReadFrom(reader); err == nil && string(name) != decoded(s.Tags[0]).N {
				wrong = mc.Failf("name reads as %q", name)
			}
		case 1:
			var t dag.Tag
			if filled {
				t = dag.Tag{Parent: "OLDP", Name: "OLDN"}
			}

			if err = t.BinaryReadFrom(reader); err == nil && t != decoded(s.Tags[0]).tag() {
				wrong = mc.Failf("tag reads as %q/%q", t.Parent, t.Name)
			}
		default:
			var idx dag.Idx
			if filled {
				idx = list([]tag{{"OLDP", "OLDN"}, {"OLDP", "OLDM"}})
			}

			if err = idx.BinaryReadFrom(reader); err == nil {
				wrong = compareList(idx, s.Tags)
			}
		}

		return wrong, err
	}

	try := func(s subject, r *mc.Reader, complete, filled bool) error {
		wrong, err := read(s, r, filled)

		switch {
		case !complete && err == nil:
			return mc.Failf("reading %.100q from a stream ending after %d of %d bytes reports success", fmt.Sprint(s), len(r.Data), len(encode(s)))
		case complete && err != nil:
			return mc.Failf("reading %.100q in pieces: %v", fmt.Sprint(s), err)
		case complete && wrong != nil:
			return mc.Failf("reading %.100q in pieces: %v", fmt.Sprint(s), wrong)
		}

		return nil
	}

	var subjects []subject

	for _, n := range []string{"NOUN", "", "ёж", "   x", "\x00\x00\x00\x00"} {
		subjects = append(subjects, subject{0, []tag{{"", n}}})
		for _, p := range []string{"", "POST", "\x00\x00\x00\x00"} {
			subjects = append(subjects, subject{1, []tag{{p, n}}}, subject{2, []tag{{p, n}}})
		}
	}

	for _, n := range []int{0, 2, 3, 8, 100, 128, 255} {
		if c.Quick() && n == 128 {
			continue
		}

		tags := make([]tag, n)
		for i := range tags {
			tags[i] = unique(i)
		}

		subjects = append(subjects, subject{2, tags})
	}

	type cut struct {
		Subject subject `json:"subject"`
		End     string  `json:"end"`
		Joined  bool    `json:"joined"`
	}

	mc.Family(c, "cuts", "every cut point of every subject, every kind of end, one read failing at every point, whole and byte by byte, fresh and filled receivers", func(yield func(cut) bool) {
		for _, s := range subjects {
			for end := range ends {
				for _, joined := range []bool{false, true} {
					if !yield(cut{s, end, joined}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, s cut) error {
		data := encode(s.Subject)

		for at := 0; at <= len(data); at++ {
			complete := at == len(data)
			if complete && s.Joined && s.End != "eof" {
				continue
			}

			for _, single := range []bool{false, true} {
				for _, filled := range []bool{false, true} {
					var pieces []int
					for i := 0; single && i < at; i++ {
						pieces = append(pieces, 1)
					}

					if !complete && !s.Joined { // one read fails, later ones would go on
						if err := try(s.Subject, &mc.Reader{Data: data, End: ends[s.End], Break: at + 1, Pieces: append([]int{}, pieces...)}, false, filled); err != nil {
							return mc.Failf("one read failing at %d: %v", at, err)
						}
					}

					if err := try(s.Subject, &mc.Reader{Data: data[:at], End: ends[s.End], Joined: s.Joined, Pieces: pieces}, complete, filled); err != nil {
						return err
					}

					x.Evals(1, 1)
				}
			}
		}

		return nil
	})

	type pieces struct {
		Subject subject `json:"subject"`
		At      int     `json:"at"`
	}

	limit := c.Pick(9, 17)

	mc.Family(c, "pieces", fmt.Sprintf("encodings of up to %d bytes: every cut point, every way to deliver the bytes in pieces, an empty read at every place", limit), func(yield func(pieces) bool) {
		for _, s := range append(subjects, subject{2, []tag{{"", "NOUN"}, {"NOUN", "anim"}}}) {
			if n := len(encode(s)); n <= limit {
				for at := 0; at <= n; at++ {
					if !yield(pieces{s, at}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, s pieces) (err error) {
		data := encode(s.Subject)
		complete := s.At == len(data)

		mc.Compositions(s.At, func(p []int) bool {
			for gap := -1; gap < len(p); gap++ {
				if gap >= 0 && len(p) > 10 {
					break
				}

				q := append([]int{}, p...)
				if gap >= 0 {
					q = append(append(append([]int{}, p[:gap]...), 0), p[gap:]...)
				}

				for _, joined := range []bool{false, true} {
					r := &mc.Reader{Data: data[:s.At], Pieces: append([]int{}, q...), Joined: joined}
					if err = try(s.Subject, r, complete, true); err != nil {
						err = mc.Failf("pieces %v: %v", q, err)
						return false
					}

					x.Evals(1, 1)
				}
			}

			return !x.Expired()
		})

		return err
	})

	type wcut struct {
		Subject subject `json:"subject"`
		Mode    string  `json:"mode"`
	}

	mc.Family(c, "writers", "destination failing after every byte, three ways to fail", func(yield func(wcut) bool) {
		for _, s := range subjects {
			for _, mode := range []string{"error", "refuse", "short", "once", "once-short"} {
				if !yield(wcut{s, mode}) {
					return
				}
			}
		}
	}, func(x *mc.X, s wcut) error {
		data := encode(s.Subject)

		for at := 0; at <= len(data); at++ {
			w := &mc.Writer{Limit: at, Mode: s.Mode}
			writer := binutils.NewBinaryWriter(w)

			var err error

			switch s.Subject.Kind {
			case 0:
				err = dag.TagName(s.Subject.Tags[0].N).BinaryWriteTo(writer)
			case 1:
				err = s.Subject.Tags[0].tag().BinaryWriteTo(writer)
			default:
				err = list(s.Subject.Tags).BinaryWriteTo(writer)
			}

			if at < len(data) && err == nil {
				return mc.Failf("writing %.100q to a destination failing (%s) after %d of %d bytes reports success", fmt.Sprint(s.Subject), s.Mode, at, len(data))
			}

			if at == len(data) && (err != nil || !bytes.Equal(data, w.Data)) {
				return mc.Failf("writing %.100q to a destination of exactly its size: %v %q", fmt.Sprint(s.Subject), err, w.Data)
			}

			x.Evals(1, 1)
		}

		return nil
	})
}
