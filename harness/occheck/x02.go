//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// X02 runs the update command itself: the real program, real files in a scratch directory, and a site on the loopback
// network reached as a proxy. Every state of the data directory and of the site is put before it, every outcome is judged
// and compared with what the same scenario gives in the simulated world the other checks use.

// files is the content of a data directory.
type files struct {
	Archive  string `json:"archive,omitempty"`  // 0 or 1: the version, cut, empty, folder
	Unpacked string `json:"unpacked,omitempty"` // fresh: made of the archive, old: of another version before, garbage: before, folder
	Compiled string `json:"compiled,omitempty"` // fresh, old, garbage: made before the archive, other: version 2 before, folder
	Data     string `json:"data,omitempty"`     // file: the data directory is a file
	Left     bool   `json:"left,omitempty"`     // incomplete files left behind by a process which died
}

// updating is one scenario.
type updating struct {
	Files  files    `json:"files"`
	Remote string   `json:"remote"` // newer, same, older, undated, misdated, missing, failing, down, cut, vanished
	Args   []string `json:"args,omitempty"`
	Dir    string   `json:"dir,omitempty"`    // name of the working directory
	Size   int64    `json:"size,omitempty"`   // limit of file sizes plus one
	Open   int      `json:"open,omitempty"`   // limit of open files
	Chunk  int      `json:"chunk,omitempty"`  // size of the pieces the body comes in
	Length bool     `json:"length,omitempty"` // its length is told
	Hops   int      `json:"hops,omitempty"`   // redirections
	Code   int      `json:"code,omitempty"`   // of the redirections
}

const newest = 1 // version at the site

// site answers the requests of one scenario.
type site struct {
	k        *updating
	modified time.Time
	gate     func(event string) // waits for permission
	mu       sync.Mutex
	requests []string
}

var (
	sites     sync.Map
	siteCount atomic.Int64
	proxies   []string
)

func serve() {
	for i := 0; i < 8; i++ {
		listener, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}

		proxies = append(proxies, listener.Addr().String())

		go func() { _ = http.Serve(listener, http.HandlerFunc(answer)) }()
	}
}

func answer(rw http.ResponseWriter, req *http.Request) {
	id, ok := strings.CutPrefix(req.Header.Get("Proxy-Authorization"), "Basic ")
	if !ok {
		http.Error(rw, "who are you", http.StatusProxyAuthRequired)
		return
	}

	name, err := base64.StdEncoding.DecodeString(id)
	if err != nil {
		panic(err)
	}

	found, ok := sites.Load(strings.TrimSuffix(string(name), ":x"))
	if !ok {
		http.Error(rw, "gone", http.StatusGone)
		return
	}

	s := found.(*site)
	s.mu.Lock()
	s.requests = append(s.requests, req.Method+" "+req.URL.String())
	s.mu.Unlock()

	if s.gate != nil {
		s.gate(req.Method)
	}

	hop := 0
	if strings.HasPrefix(req.URL.Host, "mirror") {
		hop, _ = strconv.Atoi(req.URL.Host[len("mirror"):])
	}

	if hop < s.k.Hops {
		rw.Header().Set("Location", fmt.Sprintf("http://mirror%d/dict", hop+1))
		rw.WriteHeader(s.k.Code)

		return
	}

	h := rw.Header()

	switch s.k.Remote {
	case "undated":
	case "misdated":
		h.Set("Last-Modified", "yesterday")
	default:
		h.Set("Last-Modified", s.modified.UTC().Format(http.TimeFormat))
	}

	status := http.StatusOK

	switch s.k.Remote {
	case "missing":
		status = http.StatusNotFound
	case "failing":
		status = http.StatusInternalServerError
	case "vanished":
		if req.Method == http.MethodGet {
			status = http.StatusNotFound
		}
	}

	data := archives[newest]
	if status != http.StatusOK {
		data = []byte("<html>error</html>")
	}

	if s.k.Length || s.k.Remote == "cut" {
		h.Set("Content-Length", strconv.Itoa(len(data)))
	}

	h.Set("Content-Type", "application/x-bzip2")
	rw.WriteHeader(status)

	if req.Method == http.MethodHead {
		return
	}

	if s.k.Remote == "cut" {
		_, _ = rw.Write(data[:len(data)/2])
		rw.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	}

	size := s.k.Chunk
	if size <= 0 {
		size = len(data)
	}

	for at := 0; at < len(data); at += size {
		if s.gate != nil && at > 0 {
			s.gate("body")
		}

		if _, err := rw.Write(data[at:min(len(data), at+size)]); err != nil {
			return
		}

		rw.(http.Flusher).Flush()
	}
}

// place is a scratch directory of one scenario.
type ground struct {
	root, work, data string
	base             time.Time // of the archive
	number           int64
}

func newGround(name string) *ground {
	if name == "" {
		name = "work"
	}

	n := siteCount.Add(1)
	g := &ground{number: n, root: filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("update%d", n))}
	g.work = filepath.Join(g.root, name)
	g.data = filepath.Join(g.work, ".data", "opencorpora")
	g.base = time.Now().Add(-10 * time.Hour).Truncate(time.Second)

	for _, dir := range []string{g.work, filepath.Join(g.root, "home"), filepath.Join(g.root, "tmp")} {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
	}

	return g
}

func (g *ground) remove() { _ = os.RemoveAll(g.root) }

func (f files) version() int {
	switch f.Archive {
	case "0":
		return 0
	case "1":
		return 1
	}

	return -1
}

// entry is a file or directory of a scenario.
type entry struct {
	name string
	data []byte
	dir  bool
	off  time.Duration // after the archive
}

func (f files) entries() (res []entry) {
	add := func(name string, data []byte, off time.Duration) {
		res = append(res, entry{name: name, data: data, off: off})
	}
	folder := func(name string) { res = append(res, entry{name: name, dir: true}) }
	v := f.version()

	switch f.Archive {
	case "":
	case "cut":
		add(opencorpora.LocalSourceFilename, archives[0][:len(archives[0])/2], 0)
	case "empty":
		add(opencorpora.LocalSourceFilename, nil, 0)
	case "folder":
		folder(opencorpora.LocalSourceFilename)
	default:
		add(opencorpora.LocalSourceFilename, archives[v], 0)
	}

	switch f.Unpacked {
	case "":
	case "fresh":
		add(opencorpora.LocalUnpackedFilename, []byte(versions[v].text), 0)
	case "old":
		add(opencorpora.LocalUnpackedFilename, []byte(versions[2].text), -time.Minute)
	case "garbage":
		add(opencorpora.LocalUnpackedFilename, []byte(versions[0].text[:100]), -time.Minute)
	case "folder":
		folder(opencorpora.LocalUnpackedFilename)
	}

	switch f.Compiled {
	case "":
	case "fresh":
		add(opencorpora.LocalCompiledFilename, compiledOf(v), 0)
	case "old":
		add(opencorpora.LocalCompiledFilename, compiledOf(0), -2*time.Minute)
	case "other":
		add(opencorpora.LocalCompiledFilename, compiledOf(2), -2*time.Minute)
	case "garbage":
		add(opencorpora.LocalCompiledFilename, []byte("garbage"), -2*time.Minute)
	case "folder":
		folder(opencorpora.LocalCompiledFilename)
	}

	if f.Left {
		add(opencorpora.LocalSourceFilename+".part", []byte("BZh"), -time.Hour)
		add(opencorpora.LocalSourceFilename+".0.part", []byte("BZh"), -time.Hour)
		add(opencorpora.LocalUnpackedFilename+".0.part", []byte("<?xml"), -time.Hour)
		add(opencorpora.LocalCompiledFilename+".0.part", []byte("go"), -time.Hour)
	}

	return res
}

// fill puts the files of a scenario in place.
func (g *ground) fill(f files) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}

	if f.Data == "file" {
		must(os.MkdirAll(filepath.Dir(g.data), 0o755))
		must(os.WriteFile(g.data, []byte("file"), 0o644))

		return
	}

	list := f.entries()
	if len(list) > 0 || f.Data == "empty" {
		must(os.MkdirAll(g.data, 0o755))
	}

	for _, e := range list {
		name := filepath.Join(g.data, e.name)

		if e.dir {
			must(os.Mkdir(name, 0o755))
			must(os.WriteFile(filepath.Join(name, "occupied"), nil, 0o644))
		} else {
			must(os.WriteFile(name, e.data, 0o644))
		}

		must(os.Chtimes(name, g.base.Add(e.off), g.base.Add(e.off)))
	}
}

// found is one file of the directory of a scenario.
type foundFile struct {
	data string
	dir  bool
	time time.Time
	file any // the very file
}

func (g *ground) snapshot() map[string]foundFile {
	res := map[string]foundFile{}

	_ = filepath.WalkDir(g.root, func(name string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil //nolint:nilerr // removed meanwhile
		}

		var f foundFile

		if info, err := d.Info(); err == nil {
			f.time = info.ModTime()

			if stat, ok := info.Sys().(*syscall.Stat_t); ok {
				f.file = stat.Ino
			}
		}

		if f.dir = d.IsDir(); !f.dir {
			data, err := os.ReadFile(name)
			if err != nil {
				return nil //nolint:nilerr // removed meanwhile
			}

			f.data = string(data)
		}

		rel, _ := filepath.Rel(g.root, name)
		res[rel] = f

		return nil
	})

	return res
}

func (g *ground) in(name string) string {
	rel, _ := filepath.Rel(g.root, filepath.Join(g.data, name))
	return rel
}

// realIndex is the version of a compiled index: -1 when there is none, -2 when it can not be loaded or is something else.
func realIndex(snap map[string]foundFile, name string) int {
	f, ok := snap[name]
	if !ok {
		return -1
	}

	if f.dir {
		return -3
	}

	w := newWorld()
	w.SetFile(compiledFile, []byte(f.data), w.Clock)

	return compiled(w)
}

func realArchive(snap map[string]foundFile, name string) int {
	f, ok := snap[name]
	if !ok {
		return -1
	}

	if f.dir {
		return -3
	}

	for i, a := range archives {
		if string(a) == f.data {
			return i
		}
	}

	return -2
}

// offset is how much the file at the site is newer than the archive.
func (k *updating) offset() time.Duration {
	switch k.Remote {
	case "same":
		return 0
	case "older":
		return -time.Hour
	}

	return time.Hour
}

// started is a process of the update command.
type started struct {
	cmd    *exec.Cmd
	site   *site
	id     string
	out    bytes.Buffer
	cancel context.CancelFunc
}

func (k *updating) start(g *ground, gate func(event string)) (*started, error) {
	p := &started{site: &site{k: k, modified: g.base.Add(k.offset()), gate: gate}}
	n := siteCount.Add(1)
	p.id = fmt.Sprintf("case%d", n)
	sites.Store(p.id, p.site)

	proxy := "127.0.0.1:1"
	if k.Remote != "down" {
		proxy = proxies[n%int64(len(proxies))]
	}

	command := os.Getenv("VERIF_UPDATE")
	args := k.Args

	if k.Size > 0 || k.Open > 0 {
		var limits []string
		if k.Size > 0 {
			limits = append(limits, fmt.Sprintf("--fsize=%d", k.Size-1))
		}

		if k.Open > 0 {
			limits = append(limits, fmt.Sprintf("--nofile=%d", k.Open))
		}

		args = append(append(limits, "--", command), args...)
		command = "prlimit"
	}

	var ctx context.Context

	ctx, p.cancel = context.WithTimeout(context.Background(), 60*time.Second)
	p.cmd = exec.CommandContext(ctx, command, args...)
	p.cmd.Dir = g.work
	p.cmd.Env = []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(g.root, "home"), "TMPDIR=" + filepath.Join(g.root, "tmp"),
		"PWD=" + g.work, "HTTP_PROXY=http://" + p.id + ":x@" + proxy, "http_proxy=http://" + p.id + ":x@" + proxy, "GOTRACEBACK=none",
		"GOMAXPROCS=2",
	}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out

	if err := p.cmd.Start(); err != nil {
		panic(err)
	}

	return p, nil
}

// wait returns the exit code: -1 when killed.
func (p *started) wait() (code int, requests []string) {
	err := p.cmd.Wait()

	p.cancel()
	sites.Delete(p.id)
	p.site.mu.Lock()
	requests = p.site.requests
	p.site.mu.Unlock()

	var exit *exec.ExitError

	switch {
	case err == nil:
		return 0, requests
	case errors.As(err, &exit):
		return exit.ExitCode(), requests
	}

	panic(err)
}

// flags is what the arguments mean, by the rules of the flag package.
type flags struct{ force, debug, usage, wrong bool }

func read(args []string) (f flags) {
	f.force = true

	for len(args) > 0 {
		arg := args[0]
		args = args[1:]

		if len(arg) < 2 || arg[0] != '-' {
			return f
		}

		if arg == "--" {
			return f
		}

		name := strings.TrimPrefix(strings.TrimPrefix(arg, "-"), "-")
		name, value, given := strings.Cut(name, "=")

		b := true

		if name == "help" {
			f.usage = true
			return f
		}

		if name != "f" && name != "d" && name != "h" {
			f.wrong = true
			return f
		}

		if given {
			var err error
			if b, err = strconv.ParseBool(value); err != nil {
				f.wrong = true
				return f
			}
		}

		switch name {
		case "f":
			f.force = b
		case "d":
			f.debug = b
		case "h":
			f.usage = b
		}
	}

	return f
}

func (k *updating) healthy() bool {
	switch k.Remote {
	case "newer", "same", "older", "undated", "misdated":
		return k.Hops < 10
	}

	return false
}

// sees reports that the check for updates finds a newer file.
func (k *updating) offered() bool {
	switch k.Remote {
	case "newer", "misdated", "cut", "vanished":
		return true
	}

	return false
}

func (k *updating) limited() bool { return k.Size > 0 || k.Open > 0 }

func (k *updating) run(x *mc.X) error {
	g := newGround(k.Dir)
	defer g.remove()

	g.fill(k.Files)
	before := g.snapshot()

	p, err := k.start(g, nil)
	if err != nil {
		return err
	}

	code, requests := p.wait()
	after := g.snapshot()

	x.Evals(1, 1)
	x.Trans(1)
	x.Trace(1)

	said := func(format string, args ...any) error {
		return mc.Failf("update command %s: %s (exit code %d, requests %s)", k.describe(), fmt.Sprintf(format, args...), code, strings.Join(requests, ", "))
	}

	if code < 0 {
		return said("killed or not finished: %s", p.out.String())
	}

	if !k.limited() && (code == 2 && strings.Contains(p.out.String(), "goroutine ") || strings.Contains(p.out.String(), "panic:")) {
		return said("ended with a panic: %s", tail(p.out.String()))
	}

	what := read(k.Args)
	archive := realArchive(after, g.in(opencorpora.LocalSourceFilename))
	compiledName := g.in(opencorpora.LocalCompiledFilename)
	version := realIndex(after, compiledName)

	x.Outcome(fmt.Sprintf("%d|%d|%d|%v", code, archive, version, requests))

	if what.usage || what.wrong {
		if what.usage && !what.wrong && code != 0 {
			return said("usage asked for, but it failed")
		}

		if what.wrong && code == 0 {
			return said("wrong arguments pass as right")
		}

		if !strings.Contains(p.out.String(), "-f") || !strings.Contains(p.out.String(), "-d") {
			return said("printed no usage: %s", tail(p.out.String()))
		}

		if len(requests) > 0 {
			return said("asked the remote though it was to print usage only")
		}

		if d := changed(before, after); d != "" {
			return said("changed %s though it was to print usage only", d)
		}

		return nil
	}

	// nothing but the data directory is touched, nothing incomplete is left there
	for name := range after {
		old, was := before[name]
		inside := name == g.in("") || strings.HasPrefix(name, g.in("")+"/") || strings.HasPrefix(g.in("")+"/", name+"/")

		if !inside && !was {
			return said("created %s", name)
		}

		if !inside && !after[name].dir && (old.data != after[name].data || !old.time.Equal(after[name].time)) {
			return said("changed %s", name)
		}

		switch {
		case was || after[name].dir:
		case path.Base(name) == opencorpora.LocalSourceFilename, path.Base(name) == opencorpora.LocalUnpackedFilename, path.Base(name) == opencorpora.LocalCompiledFilename:
		default:
			return said("left %s behind", name)
		}
	}

	for name := range before {
		if _, still := after[name]; !still && name != g.in(opencorpora.LocalSourceFilename) && !strings.HasSuffix(name, ".part") {
			return said("removed %s", name)
		}
	}

	if code == 0 && (version < 0 || version != archive) {
		return said("success is reported, but the compiled index is %s and the downloaded dictionary is %s", label(version), label(archive))
	}

	if code != 0 && (before[compiledName].data != after[compiledName].data || version != realIndex(before, compiledName)) {
		return said("a failure is reported, but the compiled index was replaced: %s", label(version))
	}

	if code == 0 && what.force && before[compiledName].file == after[compiledName].file {
		return said("the compiled index was not rebuilt though forced")
	}

	// what is to be expected
	v := k.Files.version()
	obstacle := k.Files.Data == "file" || k.Files.Unpacked == "folder" || k.Files.Compiled == "folder" || k.Files.Archive == "folder"

	if k.limited() {
		obstacle = true
	}

	switch {
	case obstacle && !k.limited():
		// blocked by something which is not a file: failing is all it can do unless there is nothing to do with it
		if code == 0 && k.Files.Compiled == "folder" {
			return said("success is reported though a directory stands in place of the index")
		}
	case obstacle:
	case k.healthy() && (k.Files.Archive == "" || k.offered()):
		if code != 0 {
			return said("the update failed: %s", tail(p.out.String()))
		}

		if version != newest {
			return said("the compiled index is %s, not that of the remote", label(version))
		}
	case k.healthy() && v >= 0:
		if code != 0 {
			return said("the update failed: %s", tail(p.out.String()))
		}

		if version != v {
			return said("the compiled index is %s, not that of the downloaded dictionary", label(version))
		}

		for _, r := range requests {
			if strings.HasPrefix(r, "GET") {
				return said("downloaded though nothing newer is there")
			}
		}

		if !what.force && k.Files.Compiled == "fresh" {
			if d := changed(before, after); d != "" {
				return said("changed %s though everything was up to date", d)
			}
		}
	case k.healthy(): // damaged file, nothing newer: it has to be refused, the next run gets it again
		if what.force || k.Files.Compiled != "fresh" {
			if code == 0 {
				return said("success is reported with a damaged dictionary")
			}
		}
	case !k.healthy() && what.force && v >= 0 && !k.offered():
		if code != 0 || version != v {
			return said("forced without a remote, but the index of the downloaded dictionary was not rebuilt: %s", tail(p.out.String()))
		}
	default:
		if code == 0 {
			return said("success is reported without a remote")
		}

		if d := changed(onlyFiles(before), onlyFiles(after)); d != "" && !what.force {
			return said("changed %s though there was nothing to update from", d)
		}
	}

	if !k.limited() {
		if err := k.same(g, code, archive, version, requests, before, after); err != nil {
			return said("%v", err)
		}
	}

	if obstacle && !k.limited() {
		return nil
	}

	// the next runs repair everything
	next := updating{Remote: "newer", Args: []string{"-f=false"}}

	var repaired map[string]foundFile

	for i := 0; i < 2; i++ {
		g.base = g.base.Add(48 * time.Hour) // the site gets a new file

		p, err := next.start(g, nil)
		if err != nil {
			return err
		}

		code, _ := p.wait()
		snap := g.snapshot()

		x.Trans(1)

		if code != 0 || realIndex(snap, compiledName) != newest {
			return said("a following update with a healthy remote ends with code %d and index %s: %s", code, label(realIndex(snap, compiledName)), tail(p.out.String()))
		}

		if i > 0 { // everything is made of what is in place
			if d := changed(repaired, snap); d != "" {
				return said("an update with nothing new after the following one: %s", d)
			}
		}

		repaired = snap

		g.base = time.Now().Add(-10 * time.Hour).Truncate(time.Second)
		next.Remote = "older"
	}

	return nil
}

// same compares what happened with what the same scenario gives in the simulated world.
func (k *updating) same(g *ground, code, archive, version int, requests []string, before, after map[string]foundFile) error {
	w := newWorld()
	r := w.Ext.(*remote)
	base := w.Clock.Add(-10 * time.Hour).Truncate(time.Second)
	r.Version, r.Modified, r.Hops, r.HopCode, r.Chunk = newest, base.Add(k.offset()), k.Hops, k.Code, k.Chunk

	var plan func(op world.Op) *world.Fault

	switch k.Remote {
	case "undated":
		r.Missing = true
	case "misdated":
		text := "yesterday"
		r.Header = &text
	case "missing":
		r.Status = http.StatusNotFound
	case "failing":
		r.Status = http.StatusInternalServerError
	case "vanished":
		r.Get = http.StatusNotFound
	case "down":
		r.Down = true
	case "cut":
		plan = func(op world.Op) *world.Fault {
			if op.Kind == "body" {
				return &world.Fault{Err: errors.New("unexpected EOF"), Keep: op.Size / 2}
			}

			return nil
		}
	}

	if k.Files.Data == "file" {
		w.SetFile(dataDir, []byte("file"), base)
	} else {
		list := k.Files.entries()
		if len(list) > 0 || k.Files.Data == "empty" {
			w.SetDir(dataDir)
		}

		for _, e := range list {
			if e.dir {
				w.SetDir(dataDir + "/" + e.name)
				w.SetFile(dataDir+"/"+e.name+"/occupied", nil, base)
				w.Nodes[dataDir+"/"+e.name].MTime = base.Add(e.off)
			} else {
				w.SetFile(dataDir+"/"+e.name, e.data, base.Add(e.off))
			}
		}
	}

	beforeThere := map[string]foundFile{}
	for name, n := range w.Nodes {
		beforeThere[name] = foundFile{file: n}
	}

	o := process(w, plan, func(l *opencorpora.Loader) error { return l.Update(read(k.Args).force) })

	if o.panic != "" {
		return fmt.Errorf("the simulated world differs: panic %s", o.panic)
	}

	if (o.err == nil) != (code == 0) {
		return fmt.Errorf("the simulated world differs: %v", o.err)
	}

	there := map[string]foundFile{}
	for name, n := range w.Nodes {
		there[name] = foundFile{data: string(n.Data), dir: n.Dir, file: n}
	}

	show := func(before, snap map[string]foundFile, name func(string) string) string {
		var res []string

		for _, n := range []string{
			opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename,
			opencorpora.LocalSourceFilename + ".part", opencorpora.LocalSourceFilename + ".0.part", opencorpora.LocalSourceFilename + ".1.part",
			opencorpora.LocalUnpackedFilename + ".0.part", opencorpora.LocalCompiledFilename + ".0.part",
		} {
			f, ok := snap[name(n)]
			if !ok {
				continue
			}

			fresh := !f.dir && f.file != before[name(n)].file
			text := fmt.Sprintf("%s %v %v ", n, f.dir, fresh)

			if n == opencorpora.LocalCompiledFilename && !f.dir {
				text += label(realIndex(snap, name(n)))
			} else {
				text += class([]byte(f.data))
			}

			res = append(res, text)
		}

		return strings.Join(res, "; ")
	}

	here := show(before, after, g.in)
	other := show(beforeThere, there, func(n string) string { return dataDir + "/" + n })

	if here != other {
		return fmt.Errorf("the simulated world differs: %s instead of %s", other, here)
	}

	if k.Remote != "down" && strings.Join(r.Requests, ",") != strings.Join(requests, ",") {
		return fmt.Errorf("the simulated world differs: requests %v", r.Requests)
	}

	return nil
}

func changed(before, after map[string]foundFile) string {
	var names []string

	for name := range before {
		names = append(names, name)
	}

	for name := range after {
		if _, ok := before[name]; !ok {
			names = append(names, name)
		}
	}

	sort.Strings(names)

	for _, name := range names {
		a, was := before[name]
		b, is := after[name]

		if was != is || a.data != b.data || !a.dir && !a.time.Equal(b.time) {
			return name
		}
	}

	return ""
}

func onlyFiles(snap map[string]foundFile) map[string]foundFile {
	res := map[string]foundFile{}

	for name, f := range snap {
		if !f.dir {
			res[name] = f
		}
	}

	return res
}

func label(version int) string {
	switch version {
	case -1:
		return "missing"
	case -2:
		return "damaged"
	case -3:
		return "a directory"
	}

	return fmt.Sprintf("version %d", version)
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}

	return strconv.Quote(s)
}

func (k *updating) describe() string {
	data, _ := json.Marshal(k)
	return string(data)
}

// allFiles are the states of a data directory update runs (of any former release too) can have left.
func allFiles() (res []files) {
	for _, archive := range []string{"", "0", "1", "cut", "empty"} {
		for _, unpacked := range []string{"", "fresh", "old", "garbage"} {
			for _, comp := range []string{"", "fresh", "old", "other", "garbage"} {
				f := files{Archive: archive, Unpacked: unpacked, Compiled: comp}
				if f.version() < 0 && (unpacked == "fresh" || comp == "fresh") {
					continue
				}

				res = append(res, f)
			}
		}
	}

	return append(res, files{Data: "empty"})
}

var allRemotes = []string{"newer", "same", "older", "undated", "misdated", "missing", "failing", "down", "cut", "vanished"}

func checkCommand(c *mc.C) {
	prepareCompiled()
	serve()

	c.Rule("The update command runs as a process of its own on real files in a scratch directory with a site on the loopback network. " +
		"Every scenario is a distinct combination; its outcome is judged by its exit code, files and requests, and compared with the simulated world.")

	run := func(x *mc.X, k updating) error { return k.run(x) }

	mc.Family(c, "states", "all states of the data directory, all states of the remote, forced and not", func(yield func(updating) bool) {
		for _, f := range allFiles() {
			for _, r := range allRemotes {
				for _, force := range []string{"-f=false", "-f"} {
					if !yield(updating{Files: f, Remote: r, Args: []string{force}}) {
						return
					}
				}
			}
		}
	}, run)

	mc.Family(c, "obstacles", "directories and files standing in the way, incomplete files left behind, all states of the remote", func(yield func(updating) bool) {
		for _, f := range []files{
			{Data: "file"}, {Archive: "folder"}, {Unpacked: "folder"}, {Compiled: "folder"}, {Archive: "0", Unpacked: "folder", Compiled: "old"},
			{Archive: "0", Unpacked: "fresh", Compiled: "folder"}, {Archive: "0", Unpacked: "folder", Compiled: "fresh"}, {Archive: "folder", Compiled: "old"},
			{Left: true}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh", Left: true}, {Archive: "cut", Compiled: "old", Left: true},
			{Archive: "1", Compiled: "old", Left: true},
		} {
			for _, r := range allRemotes {
				for _, force := range []string{"-f=false", "-f=true"} {
					if !yield(updating{Files: f, Remote: r, Args: []string{force}}) {
						return
					}
				}
			}
		}
	}, run)

	words := []string{"-f", "-f=false", "--f=0", "-f=T", "-f=maybe", "-d", "-d=false", "-h", "-h=false", "--help", "-x", "false", "--", "-", ""}
	states := []updating{
		{Files: files{}, Remote: "newer"}, {Files: files{Archive: "0", Unpacked: "fresh", Compiled: "fresh"}, Remote: "same"},
		{Files: files{Archive: "0", Compiled: "old"}, Remote: "down"},
	}
	depth := c.Pick(2, 3)

	mc.Family(c, "arguments", fmt.Sprintf("all sequences of up to %d arguments out of %d in 3 situations", depth, len(words)), func(yield func(updating) bool) {
		for n := 0; n <= depth; n++ {
			for _, s := range states {
				stop := false

				mc.Each(len(words), n, func(word []int) bool {
					k := s
					k.Args = []string{}

					for _, w := range word {
						k.Args = append(k.Args, words[w])
					}

					stop = !yield(k)

					return !stop
				})

				if stop {
					return
				}
			}
		}
	}, run)

	mc.Family(c, "deliveries", "all sizes of the pieces the body comes in, with and without its length, redirections of every kind", func(yield func(updating) bool) {
		for _, f := range []files{{}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh"}} {
			for _, length := range []bool{false, true} {
				for size := 0; size <= len(archives[newest]); size++ {
					if size > 12 && size%c.Pick(29, 3) != 0 && size < len(archives[newest])-2 {
						continue
					}

					if !yield(updating{Files: f, Remote: "newer", Args: []string{"-f=false"}, Chunk: size, Length: length}) {
						return
					}
				}
			}

			for _, code := range []int{301, 302, 303, 307, 308} {
				for hops := 1; hops <= 3; hops++ {
					for _, r := range []string{"newer", "older", "missing"} {
						if !yield(updating{Files: f, Remote: r, Args: []string{"-f=false"}, Hops: hops, Code: code}) {
							return
						}
					}
				}
			}
		}
	}, run)

	mc.Family(c, "directories", "all names of the working directory out of a list", func(yield func(updating) bool) {
		for _, dir := range []string{"a b", "словарь", "-f", "%d", "a\nb", ".data", "a/.data/opencorpora", "'", "\"", "$HOME", "a\\b", "*", "con.", strings.Repeat("x", 200), strings.Repeat("d/", 40) + "e"} {
			for _, f := range []files{{}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh"}} {
				for _, r := range []string{"newer", "same", "down"} {
					if !yield(updating{Files: f, Remote: r, Dir: dir}) {
						return
					}
				}
			}
		}
	}, run)

	mc.Family(c, "sizes", "the disk refusing every byte from each position of a file on", func(yield func(updating) bool) {
		top := len(versions[newest].text) + 2

		for _, f := range []files{{}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh"}, {Archive: "1", Compiled: "old"}} {
			for size := 0; size <= top; size++ {
				if !yield(updating{Files: f, Remote: "newer", Args: []string{"-f=false"}, Size: int64(size) + 1}) {
					return
				}
			}
		}
	}, run)

	mc.Family(c, "descriptors", "every limit of open files", func(yield func(updating) bool) {
		for _, f := range []files{{}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh"}, {Archive: "1", Compiled: "old"}} {
			for _, r := range []string{"newer", "older", "down"} {
				for _, force := range []string{"-f=false", "-f"} {
					for n := 3; n <= 16; n++ {
						if !yield(updating{Files: f, Remote: r, Args: []string{force}, Open: n}) {
							return
						}
					}
				}
			}
		}
	}, run)

	together := func(x *mc.X, k pair) error { return k.explore(x) }

	mc.Family(c, "pairs", "two update commands at the same time: all orders of their starts, requests, pieces of answers and ends, the first one killed at each of them", func(yield func(pair) bool) {
		list := []files{{}, {Archive: "0", Unpacked: "fresh", Compiled: "fresh"}}
		if !c.Quick() {
			list = append(list, files{Archive: "0", Compiled: "old"}, files{Archive: "cut", Compiled: "other"}, files{Left: true})
		}

		for _, f := range list {
			for _, forces := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
				if c.Quick() && forces[0] != forces[1] {
					continue
				}

				for _, prefix := range (pair{Files: f, Force: forces}).prefixes() {
					if !yield(pair{Files: f, Force: forces, Prefix: prefix}) {
						return
					}
				}
			}
		}
	}, together)
}

// pair is two update commands in one directory.
type pair struct {
	Files  files   `json:"files"`
	Force  [2]bool `json:"force"`
	Prefix []int   `json:"prefix"`          // first choices of the schedules
	Moves  []int   `json:"moves,omitempty"` // one schedule: all its choices
}

const prefixLength = 5

// prefixes lists all ways schedules begin.
func (k pair) prefixes() (res [][]int) {
	if os.Getenv("VERIF_REPLAY") != "" {
		return nil
	}

	k.walk(nil, prefixLength, func(taken []pick, err error) bool {
		var moves []int

		for _, t := range taken {
			moves = append(moves, t.taken)
		}

		res = append(res, moves)

		return true
	}, nil)

	return res
}

// parked is a process waiting for a permission.
type parked struct {
	*started
	waiting chan string   // event the process waits with
	pass    chan struct{} // permission
	ended   chan int
	event   string
	over    bool
	killed  bool
	code    int
}

// explore runs all schedules which begin so.
func (k pair) explore(x *mc.X) (err error) {
	if k.Moves != nil {
		_, err := k.schedule(x, k.Moves, 0)
		return err
	}

	k.walk(k.Prefix, 0, func(taken []pick, failed error) bool {
		if x.Expired() {
			x.Cut()
			return false
		}

		if err = failed; err == nil {
			return true
		}

		var v *mc.Violation
		if errors.As(err, &v) {
			again := k
			for i := range taken {
				again.Moves = append(again.Moves, taken[i].taken)
			}

			v.Replay = again
		}

		return false
	}, x)

	return err
}

// walk runs all schedules beginning with these choices, up to a length if any.
func (k pair) walk(first []int, length int, found func(taken []pick, err error) bool, x *mc.X) {
	prefix := append([]int{}, first...)

	for {
		taken, err := k.schedule(x, prefix, length)

		if !found(taken, err) {
			return
		}

		for {
			if len(taken) <= len(first) {
				return
			}

			last := &taken[len(taken)-1]
			if last.taken++; last.taken < last.options {
				break
			}

			taken = taken[:len(taken)-1]
		}

		prefix = prefix[:0]
		for _, t := range taken {
			prefix = append(prefix, t.taken)
		}
	}
}

func (k pair) schedule(x *mc.X, prefix []int, length int) (taken []pick, err error) {
	g := newGround("")
	defer g.remove()

	g.fill(k.Files)

	compiledName := g.in(opencorpora.LocalCompiledFilename)
	version := realIndex(g.snapshot(), compiledName)
	was := version >= 0
	what := &updating{Files: k.Files, Remote: "newer", Chunk: len(archives[newest])/2 + 1}

	var (
		ps    [2]*parked
		story []string
		died  bool
	)

	fail := func(format string, args ...any) error {
		return mc.Failf("two update commands %s, forced %v: %s; %s", what.describe(), k.Force, strings.Join(story, ", "), fmt.Sprintf(format, args...))
	}

	defer func() {
		for _, p := range ps {
			if p != nil && p.started != nil && !p.over {
				_ = p.cmd.Process.Kill()
				close(p.pass)
				<-p.ended
			}
		}
	}()

	settle := func(p *parked) {
		select {
		case p.event = <-p.waiting:
		case p.code = <-p.ended:
			p.over = true
		}

		if p.event == "body" {
			// let it take what it got
			for end := time.Now().Add(10 * time.Millisecond); time.Now().Before(end); time.Sleep(500 * time.Microsecond) {
				if g.has(what.Chunk) {
					return
				}
			}
		}
	}

	for i := range ps {
		ps[i] = &parked{event: "start", waiting: make(chan string), pass: make(chan struct{}), ended: make(chan int, 1)}
	}

	for {
		var options []func()

		for i, p := range ps {
			if p.over {
				continue
			}

			i, p := i, p

			options = append(options, func() {
				story = append(story, fmt.Sprintf("%d goes on with %s", i, p.event))

				if p.started == nil {
					own := *what
					own.Args = []string{fmt.Sprintf("-f=%v", k.Force[i])}
					p.started, err = own.start(g, func(event string) {
						select {
						case p.waiting <- event:
							<-p.pass
						case <-time.After(60 * time.Second):
						}
					})

					if err != nil {
						panic(err)
					}

					go func() {
						code, _ := p.started.wait()
						p.ended <- code
					}()
				} else {
					p.pass <- struct{}{}
				}

				settle(p)
			})

			if i == 0 && !died && p.started != nil {
				options = append(options, func() {
					story = append(story, fmt.Sprintf("%d dies at %s", i, p.event))
					died = true
					_ = p.cmd.Process.Kill()
					close(p.pass)
					p.code = <-p.ended
					p.over, p.killed = true, true
				})
			}
		}

		if len(options) == 0 {
			break
		}

		choice := 0
		if len(taken) < len(prefix) {
			choice = min(prefix[len(taken)], len(options)-1)
		}

		taken = append(taken, pick{choice, len(options)})

		options[choice]()

		if x != nil {
			x.Trans(1)
		}

		v := realIndex(g.snapshot(), compiledName)

		switch {
		case v == version:
		case v < 0:
			return taken, fail("the compiled index is %s", label(v))
		case v != newest && !(v == k.Files.version()):
			return taken, fail("the compiled index is %s", label(v))
		}

		if was && v < 0 {
			return taken, fail("the compiled index is %s", label(v))
		}

		version, was = v, was || v >= 0

		if len(taken) == length {
			return taken, nil
		}
	}

	if x == nil {
		return taken, nil
	}

	x.Evals(1, 1)
	x.Trace(1)

	for i, p := range ps {
		if p.killed {
			continue
		}

		x.Outcome(fmt.Sprintf("%d %d %d", i, p.code, version))

		if p.code == 0 && version != newest {
			return taken, fail("%d reports success, but the compiled index is %s", i, label(version))
		}

		if p.code < 0 {
			return taken, fail("%d was killed or has not finished: %s", i, tail(p.out.String()))
		}
	}

	next := updating{Remote: "newer", Args: []string{"-f=false"}}

	p, err := next.start(g, nil)
	if err != nil {
		return taken, err
	}

	code, _ := p.wait()
	if v := realIndex(g.snapshot(), compiledName); code != 0 || v != newest {
		return taken, fail("a following update ends with code %d and index %s: %s", code, label(v), tail(p.out.String()))
	}

	return taken, nil
}

// has reports that a file of this size is there.
func (g *ground) has(size int) bool {
	list, err := os.ReadDir(g.data)
	if err != nil {
		return false
	}

	for _, e := range list {
		if info, err := e.Info(); err == nil && info.Size() == int64(size) {
			return true
		}
	}

	return false
}
