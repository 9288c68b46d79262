//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// configured is a loader's life: data paths and what is done with each.
type configured struct {
	First  string   `json:"first"`  // given to the constructor
	Steps  []action `json:"steps"`  // what is done
	Exists bool     `json:"exists"` // directories exist before, with files of an earlier update if odd
	Filled bool     `json:"filled"`
}

// action is an operation or, with Path, a change of the data path.
type action struct {
	Do   string  `json:"do"`
	Path *string `json:"path,omitempty"`
}

var actions = map[string]func(l *opencorpora.Loader) error{
	"exists?":         func(l *opencorpora.Loader) error { _ = l.IsDownloadExists(); return nil },
	"unpacked?":       func(l *opencorpora.Loader) error { _ = l.IsUnpackedExists(); return nil },
	"required?":       func(l *opencorpora.Loader) error { _, err := l.IsUpdateRequired(); return err },
	"download":        func(l *opencorpora.Loader) error { _, err := l.DownloadUpdate(); return err },
	"unpack":          func(l *opencorpora.Loader) error { return l.UnpackUpdate() },
	"update":          func(l *opencorpora.Loader) error { return l.Update(false) },
	"forced update":   func(l *opencorpora.Loader) error { return l.Update(true) },
	"load":            func(l *opencorpora.Loader) error { _, err := l.LoadIndex(); return err },
	"update, no site": func(l *opencorpora.Loader) error { return l.Update(true) },
}

var actionNames = []string{"exists?", "unpacked?", "required?", "download", "unpack", "update", "forced update", "load", "update, no site"}

// dirOf is the directory a data path means.
func dirOf(w *world.World, dataPath string) string {
	if dataPath == "" {
		return w.Cwd + "/.data/opencorpora"
	}

	return w.Abs(dataPath)
}

func within(name, dir string) bool {
	return name == dir || dir == "/" || strings.HasPrefix(name, dir+"/")
}

// snapshot is everything but one directory.
func snapshot(w *world.World, dir string) map[string]string {
	res := map[string]string{}

	for name, n := range w.Nodes {
		if name != dir && !within(name, dir) {
			if n.Dir {
				res[name] = "directory"
			} else {
				res[name] = fmt.Sprint(n.MTime.UnixNano(), string(n.Data))
			}
		}
	}

	return res
}

func fill(w *world.World, dir string, v int) {
	w.SetFile(path.Join(dir, opencorpora.LocalSourceFilename), archives[v], w.Clock)
	w.SetFile(path.Join(dir, opencorpora.LocalUnpackedFilename), []byte(versions[v].text), w.Clock)
	w.SetFile(path.Join(dir, opencorpora.LocalCompiledFilename), compiledOf(v), w.Clock)
}

// run lives the life.
func (k configured) run(x *mc.X) error {
	w := newWorld()
	r := w.Ext.(*remote)
	w.Ext.(*remote).Modified = w.Clock.Add(-time48)

	dirs := []string{dirOf(w, k.First)}

	for _, s := range k.Steps {
		if s.Path != nil {
			dirs = append(dirs, dirOf(w, *s.Path))
		}
	}

	// what must not be looked at: the same files of another version all around, but not in the directories used
	for _, dir := range []string{workDir, workDir + "/.data", workDir + "/.data/opencorpora", "/home/user", "/", "/tmp", workDir + "/data", workDir + "/other"} {
		used := false

		for _, d := range dirs {
			used = used || d == dir || within(d, dir) && !within(workDir, dir)
		}

		if !used {
			fill(w, dir, 2)
		}
	}

	for _, d := range dirs {
		if k.Exists {
			w.SetDir(d)
		}

		if k.Filled {
			fill(w, d, 1)
		}
	}

	tick(w)

	dir := dirs[0]
	set := 0

	var problem error

	x.Evals(1, len(k.Steps))

	res := process(w, nil, func(*opencorpora.Loader) error {
		l := opencorpora.NewLoader(k.First)

		for i, s := range k.Steps {
			if s.Path != nil {
				l.SetDataPath(*s.Path)

				set++
				dir = dirs[set]

				continue
			}

			if got := w.Abs(l.DataPath()); got != dir {
				problem = mc.Failf("data path is %q, a directory %s, instead of %s", l.DataPath(), got, dir)
				return nil
			}

			outside := snapshot(w, dir)
			r.Down = s.Do == "update, no site"
			had := archivedIn(w, dir)

			w.Touched = func(op world.Op) {
				switch {
				case problem != nil, within(op.Path, dir), op.Kind == "HEAD", op.Kind == "GET", op.Kind == "body":
				case (strings.HasPrefix(op.Kind, "mkdir") || op.Kind == "stat") && within(dir, op.Path):
				default:
					problem = mc.Failf("step %d, %s: %s of %s outside of %s", i+1, s.Do, op.Kind, op.Path, dir)
				}
			}
			err := actions[s.Do](l)
			w.Touched = nil

			if problem != nil {
				return nil
			}

			for name, state := range snapshot(w, dir) {
				if old, ok := outside[name]; !ok && !within(dir, name) || ok && old != state {
					problem = mc.Failf("step %d, %s: %s outside of %s is created or changed", i+1, s.Do, name, dir)
					return nil
				}

				delete(outside, name)
			}

			for name := range outside {
				problem = mc.Failf("step %d, %s: %s outside of %s is removed", i+1, s.Do, name, dir)
				return nil
			}

			have := 0
			for name, n := range w.Nodes {
				if !n.Dir && path.Dir(name) == dir {
					have++
				}
			}

			switch s.Do {
			case "update", "forced update":
				if err != nil {
					problem = mc.Failf("step %d, %s with data directory %s fails: %v", i+1, s.Do, dir, err)
					return nil
				}

				ix, err := l.LoadIndex()
				if err != nil {
					problem = mc.Failf("step %d: loading after %s: %v", i+1, s.Do, err)
					return nil
				}

				if got := describe(ix); got != contents[had] && got != contents[0] {
					problem = mc.Failf("step %d: index loaded after %s is not of the dictionary of this directory", i+1, s.Do)
				}

				if dir != "/" && have != 3 {
					problem = mc.Failf("step %d: %d files in %s after %s:\n%s", i+1, have, dir, s.Do, w.Dump())
				}
			case "load":
				if _, ok := w.Nodes[path.Join(dir, opencorpora.LocalCompiledFilename)]; ok == (err != nil) {
					problem = mc.Failf("step %d: loading from %s: %v", i+1, dir, err)
				}
			}

			if problem != nil {
				return nil
			}
		}

		return nil
	})

	if res.panic != "" {
		return mc.Failf("it panics: %s", res.panic)
	}

	x.Outcome(fmt.Sprint(dir, k.Exists, k.Filled))

	return problem
}

const time48 = 48 * 3600 * 1000000000

// archivedIn is the version of the downloaded archive in a directory, 0 if there is none.
func archivedIn(w *world.World, dir string) int {
	if n := w.Nodes[path.Join(dir, opencorpora.LocalSourceFilename)]; n != nil {
		for i, a := range archives {
			if string(a) == string(n.Data) {
				return i
			}
		}
	}

	return 0
}

// dataPaths lists shapes of data paths.
func dataPaths(long bool) []string {
	res := []string{""}
	seen := map[string]bool{"": true}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			res = append(res, p)
		}
	}
	heads := []string{"", "/", "./", "../", "//", workDir + "/", ".data/"}
	names := []string{"x", "x y", "данные", ".", "..", ".data", "opencorpora", "a.b", "~", "$HOME", "%d", "dict.xml.d"}
	seps := []string{"/", "//", "/./", "/../"}
	tails := []string{"", "/", "//", "/.", "/x/.."}

	for _, head := range heads {
		for _, name := range names {
			for _, tail := range tails {
				add(head + name + tail)
			}

			for _, sep := range seps {
				for _, other := range names {
					if long || (len(name)+len(other))%3 == 0 {
						add(head + name + sep + other)
					}
				}
			}
		}
	}

	for _, extra := range []string{"/", "//", "///", "/.", "/..", "a/b/c/d/e/f", "/var/lib/a/b", ".data/opencorpora", "./.data/opencorpora/", " ", "  x", "x ", "\tx", "\\x", "x\\y", "C:\\x"} {
		add(extra)
	}

	return res
}

func checkPaths(c *mc.C) {
	prepareCompiled()

	c.Rule("Every shape of data path of a grammar, given to the constructor or set later, with directories missing, empty or filled, and every sequence of operations, changes of the path among them, is run on the real loader in a simulated file system having the same files of another dictionary in other places; every file operation is watched and the tree around compared. evaluations: lives of a loader.")
	c.Assume("No symbolic links; slash is the only separator.")

	str := func(s string) *string { return &s }

	mc.Family(c, "shapes", "all shapes of data paths, at construction and set later, single operations", func(yield func(configured) bool) {
		for _, p := range dataPaths(!c.Quick()) {
			for _, do := range actionNames {
				for state := 0; state < 3; state++ {
					exists, filled := state > 0, state > 1

					if !yield(configured{p, []action{{Do: do}}, exists, filled}) {
						return
					}

					if !yield(configured{"other", []action{{Path: str(p)}, {Do: do}}, exists, filled}) {
						return
					}

					if c.Quick() && len(p)%4 != 0 {
						continue
					}

					if !yield(configured{p, []action{{Do: do}, {Path: str("")}, {Do: do}}, exists, filled}) || !yield(configured{"", []action{{Path: str("other/x")}, {Do: do}, {Path: str(p)}, {Do: do}, {Path: str("x")}, {Do: do}}, exists, filled}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k configured) error { return k.run(x) })

	mc.Family(c, "sequences", "all sequences of operations and path changes", func(yield func(configured) bool) {
		var all []action
		for _, do := range actionNames {
			all = append(all, action{Do: do})
		}

		for _, p := range []string{"", "x", "/data/"} {
			all = append(all, action{Path: str(p)})
		}

		for n := 2; n <= c.Pick(3, 5); n++ {
			for _, first := range []string{"", "x/", "/data"} {
				for state := 0; state < 3; state++ {
					if n == 5 && (first != "" || state != 0) {
						continue
					}

					stop := false

					mc.Each(len(all), n, func(list []int) bool {
						var steps []action
						for _, i := range list {
							steps = append(steps, all[i])
						}

						stop = !yield(configured{first, steps, state > 0, state > 1})

						return !stop
					})

					if stop {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k configured) error { return k.run(x) })

	mc.Family(c, "domains", "default data directories of all domains of a list, from several working directories", func(yield func([]string) bool) {
		for _, cwd := range []string{workDir, "/", "/a b", "/данные/x"} {
			for _, domain := range []string{"opencorpora", "x", "a/b", "a b", "домен", ".x", "x/", "a//b", "a/./b"} {
				for _, file := range []string{"f", "dict.xml", "a b", "sub/f"} {
					for _, there := range []string{"nothing", ".data", "all", "file"} {
						if !yield([]string{cwd, domain, file, there}) {
							return
						}
					}
				}
			}
		}
	}, func(x *mc.X, s []string) error {
		cwd, domain, file, there := s[0], s[1], s[2], s[3]

		x.Evals(1, 1)

		w := world.New(cwd)
		w.Ext = &remote{}
		dir := path.Join(cwd, ".data", domain)

		switch there {
		case ".data":
			w.SetDir(path.Join(cwd, ".data"))
		case "all":
			w.SetDir(dir)
		case "file":
			w.SetFile(path.Join(cwd, ".data"), garbage, w.Clock)
		}

		before := w.Clone()

		var problem error

		o := process(w, nil, func(*opencorpora.Loader) error {
			if got := w.Abs(common.DomainDataPath(domain)); got != dir {
				problem = mc.Failf("data path of domain %q is %s instead of %s", domain, got, dir)
			}

			if got := w.Abs(common.DomainFilePath(domain, file)); got != path.Join(dir, file) {
				problem = mc.Failf("file path of domain %q, file %q is %s", domain, file, got)
			}

			return common.MakeDomainDataPath(domain)
		})

		switch {
		case problem != nil:
			return problem
		case o.panic != "":
			return mc.Failf("it panics: %s", o.panic)
		case (o.err != nil) != (there == "file"):
			return mc.Failf("making the data directory of %q with %s there: %v", domain, there, o.err)
		}

		for name, n := range w.Nodes {
			if old := before.Nodes[name]; old == nil && !(n.Dir && within(dir, name)) {
				return mc.Failf("making %s makes %s", dir, name)
			}
		}

		for name, n := range before.Nodes {
			if now := w.Nodes[name]; now == nil || now.Dir != n.Dir || string(now.Data) != string(n.Data) {
				return mc.Failf("making %s changes %s", dir, name)
			}
		}

		if n := w.Nodes[dir]; there != "file" && (n == nil || !n.Dir || n.Perm&0o700 != 0o700) {
			return mc.Failf("%s is not made or not usable", dir)
		}

		return nil
	})
}
