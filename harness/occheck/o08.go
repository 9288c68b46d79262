//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// work is what one process does, one operation after another, and what it meets.
type work struct {
	Do       []string `json:"do"`
	Archive  string   `json:"archive"`
	Unpacked string   `json:"unpacked"`
	Compiled string   `json:"compiled"`
	Remote   string   `json:"remote"`
	// Faults of the run; nil to enumerate them.
	Faults []spec `json:"faults,omitempty"`
	Pairs  bool   `json:"pairs,omitempty"`
}

const (
	foreignFile = dataDir + "/notes.txt"
	foreignDir  = dataDir + "/opencorpora.parts"
	elsewhere   = workDir + "/exported.dat"
)

// many is a document with more grammemes than there are ids.
func many() string {
	d := dict{}
	for i := 0; i < 257; i++ {
		d.Grams = append(d.Grams, gram{fmt.Sprintf("%04d", i), ""})
	}

	return d.text()
}

// wrong is a document which can be read but not saved.
func wrong() string {
	d := baseDoc()
	d.Grams = append(d.Grams, gram{"TOOLONG", ""})

	return d.text()
}

func (k work) machine() *world.World {
	w := newWorld()
	r := w.Ext.(*remote)

	put := func(name, what string, files map[string][]byte) {
		switch data, ok := files[what]; {
		case ok:
			w.SetFile(name, data, w.Clock)
		case what == "dir":
			w.SetFile(name+"/inside", []byte("x"), w.Clock)
			w.Nodes[name].MTime = w.Clock
		case what == "parts":
			w.SetFile(name+".part", garbage, w.Clock)
			w.SetFile(name+".0.part", garbage, w.Clock)
		case what != "none":
			panic("what is " + what)
		}
	}

	cut := archives[0][:len(archives[0])-9]
	damaged := append([]byte{}, archives[0]...)
	damaged[len(damaged)/2] ^= 0x55

	put(archiveFile, k.Archive, map[string][]byte{"good": archives[0], "cut": cut, "damaged": damaged, "empty": {}, "other": garbage})
	tick(w)
	put(unpackedFile, k.Unpacked, map[string][]byte{
		"good": []byte(versions[0].text), "defective": []byte(versions[0].text[:400]), "wrong": []byte(wrong()), "many": []byte(many()), "empty": {},
		"unknown": []byte(strings.Replace(versions[0].text, `v="NOUN"`, `v="ZZZZ"`, 1)),
	})
	tick(w)
	put(compiledFile, k.Compiled, map[string][]byte{"good": compiledCache[0], "cut": compiledCache[0][:40], "other": garbage})
	w.SetFile(foreignFile, []byte("keep"), w.Clock)
	w.SetDir(foreignDir)
	tick(w)

	switch k.Remote {
	case "newer":
		r.Version, r.Modified = 1, w.Clock
	case "older":
	case "damaged":
		r.Modified, r.Garbage = w.Clock, damaged
	case "empty":
		r.Modified, r.Garbage = w.Clock, []byte{}
	case "gone":
		r.Modified, r.Get = w.Clock, 404
	case "broken":
		r.Modified, r.Status = w.Clock, 500
	case "moved":
		r.Modified, r.Hops, r.HopCode = w.Clock, 2, 302
	case "looping":
		r.Modified, r.Hops, r.HopCode = w.Clock, 100, 302
	case "down":
		r.Down = true
	default:
		panic(k.Remote)
	}

	w.Track = true

	return w
}

// tasks are the operations of a loader.
var tasks = map[string]func(l *opencorpora.Loader) error{
	"check":    func(l *opencorpora.Loader) error { _, err := l.IsUpdateRequired(); return err },
	"exist":    func(l *opencorpora.Loader) error { l.IsDownloadExists(); l.IsUnpackedExists(); return nil },
	"download": func(l *opencorpora.Loader) error { _, err := l.DownloadUpdate(); return err },
	"unpack":   func(l *opencorpora.Loader) error { return l.UnpackUpdate() },
	"parse":    func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) },
	"export":   func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, elsewhere) },
	"load":     func(l *opencorpora.Loader) error { _, err := l.LoadIndex(); return err },
	"save":     func(l *opencorpora.Loader) error { return l.SaveIndex(filled(versions[0].text), compiledFile) },
	"save wrong": func(l *opencorpora.Loader) error {
		return l.SaveIndex(filled(wrong()), elsewhere)
	},
	"resave": func(l *opencorpora.Loader) error {
		ix, err := l.LoadIndex()
		if err != nil {
			return err
		}

		return l.SaveIndex(ix, compiledFile)
	},
	"update": func(l *opencorpora.Loader) error { return l.Update(false) },
	"force":  func(l *opencorpora.Loader) error { return l.Update(true) },
}

// left is what must not be there after an operation.
func (k work) left(w *world.World, before map[string]bool, kept map[string]bool) (res []string) {
	for _, h := range w.Handles {
		if !h.Closed() {
			res = append(res, "file "+path.Base(h.Path())+" stays open")
		}
	}

	for _, b := range w.Ext.(*remote).Bodies {
		if !b.closed {
			res = append(res, "answer of the remote stays open")
		}
	}

	for name := range w.Nodes {
		switch name {
		case archiveFile, unpackedFile, compiledFile, elsewhere, dataDir, path.Dir(dataDir):
			continue
		}

		if !before[name] && !kept[name] {
			res = append(res, "new file "+name)
		}
	}

	for _, name := range []string{foreignFile, foreignDir, workDir} {
		if w.Nodes[name] == nil {
			res = append(res, name+" is gone")
		}
	}

	sort.Strings(res)

	return res
}

// once makes the operations, looking after each what stays behind.
func (k work) once(x *mc.X, log func(op world.Op)) error {
	x.Evals(1, 1)
	x.Trace(1)

	var (
		w        = k.machine()
		before   = map[string]bool{}
		kept     = map[string]bool{} // files whose removal was made fail
		done     []string
		problems []string
		plan     = plans(k.Faults)
	)

	for name := range w.Nodes {
		before[name] = true
	}

	w.Log = log

	o := process(w, func(op world.Op) *world.Fault {
		if plan == nil {
			return nil
		}

		f := plan(op)
		if f != nil && strings.HasPrefix(op.Kind, "remove") {
			kept[op.Path] = true
		}

		return f
	}, func(l *opencorpora.Loader) error {
		for _, what := range k.Do {
			err := tasks[what](l)
			done = append(done, fmt.Sprintf("%s (%v)", what, err))

			x.Trans(1)
			x.Outcome(fmt.Sprint(what, k.Archive, k.Unpacked, k.Compiled, k.Remote, err))

			if problems = k.left(w, before, kept); problems != nil {
				return nil
			}
		}

		return nil
	})

	switch {
	case o.panic != "":
		return &mc.Violation{Replay: k, Msg: fmt.Sprintf("%v: panic: %s", k, o.panic)}
	case problems != nil:
		return &mc.Violation{Replay: k, Msg: fmt.Sprintf("%v: after %s: %s", k, strings.Join(done, ", "), strings.Join(problems, ", "))}
	}

	x.State(w.Dump())

	return nil
}

func (k work) String() string {
	text := fmt.Sprintf("%s with archive %s, unpacked %s, compiled %s, remote %s", strings.Join(k.Do, ", "), k.Archive, k.Unpacked, k.Compiled, k.Remote)
	for _, f := range k.Faults {
		text += fmt.Sprintf(", %s at %s (operation %d, %d bytes)", f.Kind, f.On, f.N, f.Keep)
	}

	return text
}

// enumerate makes the operations with every fault, or every pair.
func (k work) enumerate(x *mc.X) error {
	if x.Replaying() && k.Faults != nil {
		return k.once(x, nil)
	}

	var list []world.Op

	if err := k.once(x, func(op world.Op) { list = append(list, op) }); err != nil {
		return err
	}

	for _, op := range list {
		for _, first := range faults(op, false) {
			if x.Expired() {
				return nil
			}

			if first.Kind == "death" {
				continue // nothing stays open after the process
			}

			one := k
			one.Faults = []spec{first}

			var later []world.Op

			if err := one.once(x, func(op world.Op) {
				if op.N > first.N {
					later = append(later, op)
				}
			}); err != nil {
				return err
			}

			if !k.Pairs {
				continue
			}

			for _, op := range later {
				for _, second := range faults(op, false) {
					if second.Kind == "death" {
						continue
					}

					two := k
					two.Faults = []spec{first, second}

					if err := two.once(x, nil); err != nil {
						return err
					}
				}
			}
		}
	}

	return nil
}

func checkReleased(c *mc.C) {
	prepareCompiled()

	c.Rule("Every operation of a loader is run from every state of its files and of the remote, without and with every fault (error, partial effect) at every file and network operation, and with pairs of them, alone and in sequences by one process; after every operation all files it opened and all answers it received must be closed and no file of its own be left. evaluations and traces: runs; transitions: operations; states: distinct file systems left.")
	c.Assume("A file whose closing reports an error is closed. Files the removal of which was made fail may stay.")

	family := func(name, about string, each func(yield func(k work) bool) bool) {
		mc.Family(c, name, about, func(yield func(work) bool) { each(yield) }, func(x *mc.X, k work) error { return k.enumerate(x) })
	}

	archivesOf := []string{"none", "good", "cut", "damaged", "empty", "other", "dir", "parts"}
	unpackedOf := []string{"none", "good", "defective", "wrong", "many", "unknown", "empty", "dir", "parts"}
	compiledOf := []string{"none", "good", "cut", "other", "dir", "parts"}
	remotes := []string{"newer", "older", "damaged", "empty", "gone", "broken", "moved", "looping", "down"}

	family("single", "every operation from every state of the files it uses (quick, updates: at most two of them unusual), every fault, pairs of faults (quick: not of updates)", func(yield func(k work) bool) bool {
		put := func(do string, a, u, m, r []string) bool {
			for _, archive := range a {
				for _, unpacked := range u {
					for _, compiled := range m {
						for _, remote := range r {
							k := work{Do: []string{do}, Archive: archive, Unpacked: unpacked, Compiled: compiled, Remote: remote}
							k.Pairs = !c.Quick() || do != "update" && do != "force" && (remote == "newer" || remote == "gone" || do != "download")

							unusual := 0
							for _, what := range []string{archive, unpacked, compiled} {
								if what != "good" {
									unusual++
								}
							}

							if remote != "newer" && remote != "older" {
								unusual++
							}

							if c.Quick() && (do == "update" || do == "force") && unusual > 2 {
								continue
							}

							if !yield(k) {
								return false
							}
						}
					}
				}
			}

			return true
		}
		none, good := []string{"none"}, []string{"good"}
		older := []string{"older"}

		return put("check", archivesOf, good, good, remotes) && put("exist", archivesOf, unpackedOf, good, older) &&
			put("download", archivesOf, none, none, remotes) && put("unpack", archivesOf, unpackedOf, none, older) &&
			put("parse", none, unpackedOf, compiledOf, older) && put("export", none, unpackedOf, good, older) &&
			put("load", none, none, compiledOf, older) && put("resave", none, none, compiledOf, older) &&
			put("save", none, none, compiledOf, older) && put("save wrong", none, none, good, older) &&
			put("update", archivesOf, unpackedOf, compiledOf, remotes) && put("force", archivesOf, unpackedOf, compiledOf, remotes)
	})

	names := []string{"check", "exist", "download", "unpack", "parse", "export", "load", "save", "save wrong", "resave", "update", "force"}

	family("sequences", "all sequences of two (thorough: three) operations of one process, every fault", func(yield func(k work) bool) bool {
		ok := true

		for n := 2; n <= c.Pick(2, 3) && ok; n++ {
			mc.Each(len(names), n, func(list []int) bool {
				for _, remote := range []string{"newer", "older", "damaged"} {
					for _, archive := range []string{"none", "good"} {
						k := work{Archive: archive, Unpacked: "good", Compiled: "good", Remote: remote}
						for _, i := range list {
							k.Do = append(k.Do, names[i])
						}

						if ok = yield(k); !ok {
							return false
						}
					}
				}

				return true
			})
		}

		return ok
	})
}
