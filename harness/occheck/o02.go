//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"sync"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// saving is an import or a save over what was there before.
type saving struct {
	How  string `json:"how"`  // import, save, or import with a text
	Old  string `json:"old"`  // compiled index before: none, index, garbage
	Part string `json:"part"` // incomplete file before: none, long
	Text []byte `json:"text,omitempty"`
	// Share of the first operations, of all shares.
	Share int `json:"share,omitempty"`
	Of    int `json:"of,omitempty"`
	// Faults of the run; nil to enumerate them. Then those of a second run follow.
	Faults  []spec `json:"faults,omitempty"`
	Another []spec `json:"another,omitempty"`
}

var garbage = bytes.Repeat([]byte{1, 2, 0xff}, 400)

// machine prepares a machine.
func (s saving) machine() *world.World {
	w := newWorld()
	w.SetDir(dataDir)

	switch s.Old {
	case "index":
		w.SetFile(compiledFile, oldIndex(), w.Clock)
	case "garbage":
		w.SetFile(compiledFile, garbage[:70], w.Clock)
	}

	if s.Part == "long" {
		for _, name := range []string{compiledFile, archiveFile, unpackedFile} {
			for _, suffix := range []string{".part", ".tmp", ".0.part", ".1.part"} {
				w.SetFile(name+suffix, garbage, w.Clock)
			}
		}
	}

	w.SetFile(unpackedFile, []byte(s.text()), w.Clock)
	tick(w)

	return w
}

func (s saving) text() string {
	if s.Text != nil {
		return string(s.Text)
	}

	return versions[0].text
}

// oldIndex is a compiled index of the second version.
func oldIndex() []byte { return compiledCache[1] }

// filled makes an index of a document without the importer.
func filled(text string) *index.Index {
	ix := index.New()
	d := parse(text)

	for _, g := range d.Grammemes {
		ix.TagID(dag.TagName(g.Name), dag.TagName(g.Parent))
	}

	for _, l := range d.Lemmata {
		for _, f := range l.F {
			node, err := ix.AddString(f.T)
			if err != nil {
				panic(err)
			}

			var tags []dag.TagName
			for _, g := range append(append([]value{}, l.L.G...), f.G...) {
				tags = append(tags, dag.TagName(g.V))
			}

			if err = node.AddTagSet(tags...); err != nil {
				panic(err)
			}
		}
	}

	return ix
}

// edit adds a word to an index.
func edit(ix *index.Index) error {
	node, err := ix.AddString("слово")
	if err != nil {
		return err
	}

	return node.AddTagSet("NOUN", "sing")
}

func dataOf(w *world.World) []byte {
	if n := w.Nodes[compiledFile]; n != nil && !n.Dir {
		return append([]byte{}, n.Data...)
	}

	return nil
}

// code is what the process does.
func (s saving) code() func(l *opencorpora.Loader) error {
	switch s.How {
	case "save":
		return func(l *opencorpora.Loader) error { return l.SaveIndex(filled(s.text()), compiledFile) }
	case "save relative":
		return func(l *opencorpora.Loader) error {
			return l.SaveIndex(filled(s.text()), ".data/../.data//opencorpora/opencorpora.dat")
		}
	case "load and save": // what an editor of an index does
		return func(l *opencorpora.Loader) error {
			ix, err := l.LoadIndex()
			if err != nil && s.Old == "index" {
				return err
			}

			if err != nil {
				ix = filled(s.text())
			}

			if err = edit(ix); err != nil {
				return err
			}

			return l.SaveIndex(ix, compiledFile)
		}
	default:
		return func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) }
	}
}

// plans combines the faults of one run.
func plans(list []spec) func(op world.Op) *world.Fault {
	if len(list) == 0 {
		return nil
	}

	var all []func(op world.Op) *world.Fault

	for i := range list {
		all = append(all, list[i].plan())
	}

	return func(op world.Op) *world.Fault {
		for _, p := range all {
			if f := p(op); f != nil {
				return f
			}
		}

		return nil
	}
}

func (s saving) String() string {
	var b strings.Builder

	fmt.Fprintf(&b, "%s over %s index", s.How, s.Old)

	if s.Part == "long" {
		b.WriteString(" and old incomplete files")
	}

	for i, list := range [][]spec{s.Faults, s.Another} {
		if i == 1 && list != nil {
			b.WriteString(", then again")
		}

		for _, f := range list {
			fmt.Fprintf(&b, " with %s at %s (operation %d, %d bytes)", f.Kind, f.On, f.N, f.Keep)
		}
	}

	return b.String()
}

// judge checks what a run left behind; wanted is the content of the new index.
func (s saving) judge(w *world.World, before []byte, wanted string, o outcome) (placed bool, err error) {
	if o.panic != "" {
		return false, mc.Failf("it panics: %s", o.panic)
	}

	n := w.Nodes[compiledFile]

	switch {
	case n == nil && before != nil:
		return false, mc.Failf("the compiled index is gone")
	case n == nil:
	case before != nil && bytes.Equal(n.Data, before):
		if wanted == content(w, n.Data) {
			placed = true
		}
	default:
		if got := content(w, n.Data); got != wanted {
			return false, mc.Failf("the compiled index is neither the previous nor the new one: loading gives %.600s", got)
		}

		placed = true
	}

	if o.lived && o.err == nil && !placed {
		return false, mc.Failf("it reports success but the new index is not in place")
	}

	return placed, nil
}

var contentOf sync.Map

// content is what loading a compiled file gives, remembered.
func content(w *world.World, data []byte) string {
	if v, ok := contentOf.Load(string(data)); ok {
		return v.(string)
	}

	c := newWorld()
	c.SetFile(compiledFile, data, c.Clock)

	text, err := load(c)
	if err != nil {
		text = "error: " + err.Error()
	}

	contentOf.Store(string(data), text)

	return text
}

// once makes the runs of a case and a healthy run at the end.
func (s saving) once(x *mc.X, wanted string) error {
	w := s.machine()
	before := dataOf(w)

	for i, list := range [][]spec{s.Faults, s.Another} {
		if i == 1 && list == nil {
			break
		}

		o := process(w, plans(list), s.code())

		x.Evals(1, 1)
		x.Trans(1)

		placed, err := s.judge(w, before, wanted, o)
		if err != nil {
			return &mc.Violation{Replay: s, Msg: fmt.Sprintf("%v: %v (result %v)\n%s", s, err, o.err, w.Dump())}
		}

		if placed {
			before = dataOf(w)
		}

		x.Outcome(fmt.Sprint(s.How, s.Old, o.lived, o.err == nil, placed, names(w)))
		tick(w)
	}

	x.State(w.Dump())
	x.Trace(1)

	// what is left does not disturb the next run
	o := process(w, nil, s.code())

	placed, err := s.judge(w, before, wanted, o)
	if err == nil && (o.err != nil || !placed) {
		err = mc.Failf("healthy run after it: %v, new index in place: %v", o.err, placed)
	}

	if err != nil {
		return &mc.Violation{Replay: s, Msg: fmt.Sprintf("%v: %v\n%s", s, err, w.Dump())}
	}

	return nil
}

func names(w *world.World) (res []string) {
	for _, name := range []string{compiledFile, compiledFile + ".part", unpackedFile} {
		if _, ok := w.Nodes[name]; ok {
			res = append(res, path.Base(name))
		}
	}

	return res
}

// enumerate runs all faults and, if deep, all pairs of faults: in one run or in two runs.
func (s saving) enumerate(x *mc.X, deep bool) error {
	wanted := expectedOf(s.text())

	if s.How == "load and save" {
		text := s.text()
		if s.Old == "index" {
			text = versions[1].text
		}

		ix := filled(text)
		if err := edit(ix); err != nil {
			return err
		}

		wanted = describe(ix)
	}

	if x.Replaying() && s.Faults != nil {
		return s.once(x, wanted)
	}

	if err := s.once(x, wanted); err != nil {
		return err
	}

	list, _ := ops(s.machine(), s.code())

	for i, op := range list {
		if s.Of > 0 && i%s.Of != s.Share {
			continue
		}

		for _, first := range faults(op, true) {
			if x.Expired() {
				return nil
			}

			one := s
			one.Faults = []spec{first}

			if err := one.once(x, wanted); err != nil {
				return err
			}

			if !deep || first.Kind == "death" && first.Keep > 1 {
				continue
			}

			// a second fault in the same run
			if first.Kind != "death" {
				w := s.machine()

				var later []world.Op

				w.Log = func(op world.Op) {
					if op.N > first.N {
						later = append(later, op)
					}
				}
				process(w, one.Faults[0].plan(), s.code())

				for _, op := range later {
					for _, second := range faults(op, false) {
						two := s
						two.Faults = []spec{first, second}

						if err := two.once(x, wanted); err != nil {
							return err
						}
					}
				}
			}
		}
	}

	if !deep {
		return nil
	}

	// a fault in each of two runs
	for i, op := range list {
		if s.Of > 0 && i%s.Of != s.Share {
			continue
		}

		for _, first := range faults(op, false) {
			w := s.machine()
			process(w, first.plan(), s.code())
			tick(w)

			second, _ := ops(w, s.code())

			for _, op := range second {
				if x.Expired() {
					return nil
				}

				for _, f := range faults(op, false) {
					two := s
					two.Faults, two.Another = []spec{first}, []spec{f}

					if err := two.once(x, wanted); err != nil {
						return err
					}
				}
			}
		}
	}

	return nil
}

type widths struct {
	What string `json:"what"`
	Name string `json:"name,omitempty"`
	N    int    `json:"n,omitempty"`
	Old  string `json:"old"`
}

func (v widths) text() string {
	d := baseDoc()

	switch v.What {
	case "name":
		d.Grams = append(d.Grams, gram{v.Name, ""})
	case "name used":
		d.Grams = append(d.Grams, gram{v.Name, ""})
		d.Lemmas = append(d.Lemmas, lemma{[]string{"AAAA", v.Name}, []form{{"в", nil}}})
	case "parent":
		d.Grams = append(d.Grams, gram{"EEEE", v.Name})
		d.Lemmas = append(d.Lemmas, lemma{[]string{"EEEE"}, []form{{"в", nil}}})
	case "grammemes":
		d.Grams = nil
		d.Lemmas = nil

		for i := 0; i < v.N; i++ {
			d.Grams = append(d.Grams, gram{fmt.Sprintf("%04d", i), ""})
		}

		for _, i := range []int{0, v.N / 2, v.N - 2, v.N - 1} {
			d.Lemmas = append(d.Lemmas, lemma{[]string{d.Grams[i].Name}, []form{{"г", nil}}})
		}
	case "tags":
		d.Grams = nil
		l := lemma{nil, []form{{Text: "д"}}}

		for i := 0; i < v.N; i++ {
			name := fmt.Sprintf("%04d", i)
			if i < 255 {
				d.Grams = append(d.Grams, gram{name, ""})
			} else {
				name = d.Grams[i%255].Name
			}

			l.Tags = append(l.Tags, name)
		}

		d.Lemmas = []lemma{l}
	case "variants":
		d.Grams = nil
		for i := 0; i < 10; i++ {
			d.Grams = append(d.Grams, gram{fmt.Sprintf("B%03d", i), ""})
		}

		d.Lemmas = nil

		for i := 1; i <= v.N; i++ {
			f := form{Text: "е"}

			for bit := range d.Grams {
				if i&(1<<bit) != 0 {
					f.Tags = append(f.Tags, d.Grams[bit].Name)
				}
			}

			d.Lemmas = append(d.Lemmas, lemma{nil, []form{f}})
		}
	}

	return d.text()
}

// place is a state of the files an import meets.
type place struct {
	What string `json:"what"`
	How  string `json:"how"`
	Old  string `json:"old"`
}

// cutting is a way a compiled file is read.
type cutting struct {
	Version int    `json:"version"`
	Cut     int    `json:"cut"` // bytes left, -1 for all
	Piece   int    `json:"piece,omitempty"`
	Faults  []spec `json:"faults,omitempty"`
}

func checkSaving(c *mc.C) {
	prepareCompiled()

	c.Rule("Every import and save is run with every fault (error, partial effect, process death) at every file operation, thorough: with every pair of faults in one run and in two runs, followed by a healthy run; after each the compiled file is byte for byte the previous one or loads as the complete new one. Every document that can not be imported or encoded, every unsuitable file or directory at the names used, and every cut, piecewise or failing reading of a compiled file is tried as well. evaluations: runs; transitions: runs; traces: sequences of runs; states: distinct file systems left.")
	c.Assume("A process dies between or within file operations; what it wrote before is kept (no power loss). Errors of closing a file lose none of its bytes unless reported.")

	family := func(name, space string, deep bool, hows, olds, parts []string) {
		mc.Family(c, name, space, func(yield func(saving) bool) {
			for _, how := range hows {
				for _, old := range olds {
					for _, part := range parts {
						s := saving{How: how, Old: old, Part: part}
						if deep {
							s.Of = 16
						}

						for ; s.Share == 0 || s.Share < s.Of; s.Share++ {
							if !yield(s) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, s saving) error { return s.enumerate(x, deep) })
	}

	hows, olds := []string{"import", "save", "save relative", "load and save"}, []string{"none", "index", "garbage"}
	family("one fault", "all faults of all operations", false, hows, olds, []string{"none", "long"})
	family("two faults", "all pairs of faults, in one run or in two runs", true, hows[c.Pick(1, 0):c.Pick(2, 4)], olds[:c.Pick(2, 3)], []string{"none", "long"}[:c.Pick(1, 2)])

	mc.Family(c, "defective documents", "every defect at every place with every fault of the import", func(yield func(saving) bool) {
		for _, d := range decorationDocs()[:2] {
			if !defects(d, func(_, text string) bool {
				for _, old := range []string{"none", "index"} {
					if !yield(saving{How: "import", Old: old, Part: "none", Text: []byte(text)}) {
						return false
					}
				}

				return true
			}) {
				return
			}
		}
	}, func(x *mc.X, s saving) error {
		try := func(list []spec) error {
			w := s.machine()
			before := dataOf(w)
			o := process(w, plans(list), s.code())

			x.Evals(1, 1)
			x.Trans(1)

			s.Faults = list
			if o.lived && o.err == nil && o.panic == "" {
				return &mc.Violation{Replay: s, Msg: fmt.Sprintf("%v: import of a defective document succeeds:\n%s", s, s.Text)}
			}

			if placed, err := s.judge(w, before, "nothing at all", o); err != nil || placed {
				return &mc.Violation{Replay: s, Msg: fmt.Sprintf("%v: %v, index in place: %v, document:\n%s", s, err, placed, s.Text)}
			}

			return nil
		}

		if x.Replaying() && s.Faults != nil {
			return try(s.Faults)
		}

		if err := try(nil); err != nil {
			return err
		}

		list, _ := ops(s.machine(), s.code())
		for _, op := range list {
			for _, f := range faults(op, false) {
				if err := try([]spec{f}); err != nil {
					return err
				}
			}
		}

		return nil
	})

	mc.Family(c, "limits", "dictionaries around and beyond what a compiled index can hold", func(yield func(widths) bool) {
		for _, old := range []string{"none", "index"} {
			for _, what := range []string{"name", "name used", "parent"} {
				for _, name := range []string{
					"A", "AB", "ABC", "ABCDE", "ABCDEFGH", "АБ", "АБВ", "АБВГ", "A ", "ёA", "ABC\u00a0", "    ", "----", "A\u2028", "1234", "ANim", "Ms-f", "LATN ",
				} {
					if strings.TrimSpace(name) != name {
						continue
					}

					if !yield(widths{What: what, Name: name, Old: old}) {
						return
					}
				}
			}

			for _, what := range []string{"grammemes", "tags", "variants"} {
				for _, n := range []int{2, 127, 128, 200, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 600, 1000} {
					if !yield(widths{What: what, N: n, Old: old}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, v widths) error {
		text := v.text()
		s := saving{How: "import", Old: v.Old, Part: "none", Text: []byte(text)}
		w := s.machine()
		before := dataOf(w)
		o := process(w, nil, s.code())

		x.Evals(1, 1)
		x.Outcome(fmt.Sprint(v.What, v.Name, v.N, o.err == nil))

		wanted := expectedOf(text)

		if v.What == "tags" && v.N > 255 {
			wanted = "" // a set of more tags than there are grammemes: only refusal is clearly right
			if o.err == nil && o.panic == "" {
				return nil
			}
		}

		if _, err := s.judge(w, before, wanted, o); err != nil {
			return mc.Failf("dictionary with %+v: %v (result %v)", v, err, o.err)
		}

		if o.err == nil && content(w, w.Nodes[compiledFile].Data) != wanted {
			return mc.Failf("dictionary with %+v is imported as something else", v)
		}

		return nil
	})

	mc.Family(c, "places", "files and directories that do not fit", func(yield func(place) bool) {
		for _, what := range []string{
			"source missing", "source is a directory", "source directory missing", "target directory missing", "target is a directory",
			"part is a directory", "target directory is a file",
		} {
			for _, how := range []string{"import", "save", "update", "forced update", "unpack", "load"} {
				for _, old := range []string{"none", "index"} {
					if !yield(place{what, how, old}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, p place) error {
		s := saving{How: p.How, Old: p.Old, Part: "none"}
		w := s.machine()
		from, to := unpackedFile, compiledFile
		fails := p.How == "import" || p.How == "save"

		switch p.What {
		case "source missing":
			delete(w.Nodes, unpackedFile)
			fails = p.How == "import"
		case "source is a directory":
			w.Nodes[unpackedFile] = &world.Node{Dir: true}
			w.SetFile(archiveFile, archives[0], w.Clock)
			fails = p.How != "save" && p.How != "load"
		case "source directory missing":
			from = workDir + "/missing/dict.xml"
			fails = p.How == "import"
		case "target directory missing":
			to = workDir + "/missing/index.dat"
		case "target is a directory":
			w.Nodes[compiledFile] = &world.Node{Dir: true}
			w.SetFile(compiledFile+"/kept", garbage, w.Clock)
			fails = p.How != "unpack"
		case "part is a directory":
			fails = false // a name the loader is free to use or not

			w.SetDir(compiledFile + ".part")
		case "target directory is a file":
			w.SetFile(workDir+"/file", garbage, w.Clock)
			to = workDir + "/file/index.dat"
		}

		before := w.Clone()
		o := process(w, nil, func(l *opencorpora.Loader) error {
			switch p.How {
			case "import":
				return l.ParseUpdate(from, to)
			case "save":
				return l.SaveIndex(filled(s.text()), to)
			case "update", "forced update":
				return l.Update(p.How == "forced update")
			case "unpack":
				return l.UnpackUpdate()
			default:
				_, err := l.LoadIndex()
				return err
			}
		})

		x.Evals(1, 1)

		if o.panic != "" {
			return mc.Failf("%+v: it panics: %s", p, o.panic)
		}

		if fails && o.err == nil {
			return mc.Failf("%+v: it reports success", p)
		}

		if p.How == "update" || p.How == "forced update" {
			if o.err == nil && content(w, dataOf(w)) != contents[0] {
				return mc.Failf("%+v: it reports success, the compiled index is not there", p)
			}
		}

		if old := before.Nodes[compiledFile]; old != nil && o.err != nil {
			if n := w.Nodes[compiledFile]; n == nil || n.Dir != old.Dir || !bytes.Equal(n.Data, old.Data) {
				return mc.Failf("%+v: failed, but changed what was in place of the compiled index", p)
			}
		}

		for name, n := range before.Nodes {
			now := w.Nodes[name]
			if now == nil && (n.Dir || name == workDir+"/file" || path.Base(name) == "kept") {
				return mc.Failf("%+v: %s is gone", p, name)
			}

			if name == workDir+"/file" && !bytes.Equal(now.Data, n.Data) {
				return mc.Failf("%+v: %s is changed", p, name)
			}
		}

		return nil
	})

	mc.Family(c, "loading", "every cut, every piece size and every fault of reading a compiled file", func(yield func(cutting) bool) {
		for v := range versions {
			for _, piece := range []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 511} {
				if !yield(cutting{Version: v, Cut: -1, Piece: piece}) {
					return
				}
			}

			for cut := range compiledOf(v) {
				for _, piece := range []int{0, 1, 3} {
					if !yield(cutting{Version: v, Cut: cut, Piece: piece}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k cutting) error {
		data := compiledOf(k.Version)
		if k.Cut >= 0 {
			data = data[:k.Cut]
		}

		make := func() *world.World {
			w := newWorld()
			w.MaxRead = k.Piece
			w.SetFile(compiledFile, data, w.Clock)

			return w
		}

		try := func(list []spec) error {
			x.Evals(1, 1)

			k := k
			k.Faults = list
			got := ""
			w := make()
			o := process(w, plans(list), func(l *opencorpora.Loader) error {
				ix, err := l.LoadIndex()
				if err == nil {
					got = describe(ix)
				}

				return err
			})

			problem := ""

			switch {
			case o.panic != "":
				problem = "panics: " + o.panic
			case o.lived && o.err == nil && k.Cut >= 0:
				problem = "a cut index is loaded"
			case o.lived && o.err == nil && got != contents[k.Version]:
				problem = "something else is loaded:\n" + got
			case list == nil && k.Cut < 0 && o.err != nil:
				problem = "fails: " + o.err.Error()
			case !bytes.Equal(dataOf(w), data):
				problem = "loading changes the file"
			}

			if problem != "" {
				return &mc.Violation{Replay: k, Msg: fmt.Sprintf("loading the compiled index of version %d, %d bytes (-1: all), %d at a time, faults %+v: %s", k.Version, k.Cut, k.Piece, list, problem)}
			}

			return nil
		}

		if x.Replaying() && k.Faults != nil {
			return try(k.Faults)
		}

		if err := try(nil); err != nil {
			return err
		}

		if k.Cut >= 0 && x.Quick() {
			return nil
		}

		list, _ := ops(make(), func(l *opencorpora.Loader) error {
			_, err := l.LoadIndex()
			return err
		})

		for _, op := range list {
			for _, f := range faults(op, true) {
				if err := try([]spec{f}); err != nil {
					return err
				}
			}
		}

		return nil
	})
}

var compiledCache [][]byte

// compiledOf is the compiled file of a version.
func compiledOf(v int) []byte {
	return compiledCache[v]
}

func prepareCompiled() {
	for _, v := range versions {
		w := newWorld()
		w.SetFile(unpackedFile, []byte(v.text), w.Clock)

		if o := process(w, nil, func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) }); o.err != nil || o.panic != "" {
			panic(fmt.Sprint(o))
		}

		compiledCache = append(compiledCache, w.Nodes[compiledFile].Data)
	}
}
