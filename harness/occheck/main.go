//go:build go1.22

// Package main checks dictionary import and update (pkg/opencorpora): O01-O05. The packages run on a simulated world
// (verif.local/sim): a file system in memory and a remote, both failing as told, for every operation.
package main

import (
	"encoding/base64"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

const (
	workDir = "/home/user/work"
	dataDir = workDir + "/.data/opencorpora"

	archiveFile  = dataDir + "/" + opencorpora.LocalSourceFilename
	unpackedFile = dataDir + "/" + opencorpora.LocalUnpackedFilename
	compiledFile = dataDir + "/" + opencorpora.LocalCompiledFilename
)

func main() {
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // the importer prints stacks of panics it recovers from

	http.DefaultTransport = transport{}
	http.DefaultClient.Transport = transport{}

	for _, v := range versions {
		data, err := base64.StdEncoding.DecodeString(v.archive)
		if err != nil {
			panic(err)
		}

		archives = append(archives, data)
		contents = append(contents, expectedOf(v.text))
	}

	mc.Main(map[string]func(c *mc.C){
		"O01": checkImport, "O02": checkSaving, "O03": checkRequired, "O04": checkHistories, "O05": checkPaths, "O06": checkTogether, "O08": checkReleased, "X02": checkCommand,
	}, map[string]string{
		"O01": "exploration", "O02": "fault_enumeration", "O03": "exploration", "O04": "model_checking", "O05": "exploration", "O06": "model_checking", "O08": "fault_enumeration", "X02": "model_checking",
	})
}

var (
	archives [][]byte
	contents []string
)

// remote is the simulated site.
type remote struct {
	Version  int
	Modified time.Time
	Header   *string // Last-Modified as sent instead of the time
	Missing  bool    // no Last-Modified
	Status   int
	Get      int // status of answers to GET if other
	Down     bool
	Chunk    int
	Hops     int // redirections before the answer
	HopCode  int
	Requests []string
	Proto    string            // protocol version if other
	Length   int64             // told of the answer plus one
	Others   map[string]string // other header fields
	Garbage  []byte            // sent instead of the archive
	Bodies   []*body           // sent
}

type statusError int

func (s statusError) Error() string { return fmt.Sprintf("status %d", int(s)) }

// errCut ends data early without an error.
var errCut = errors.New("cut")

type transport struct{}

func (transport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := world.Current()
	r := w.Ext.(*remote)
	r.Requests = append(r.Requests, req.Method+" "+req.URL.String())
	status := r.Status

	if status == 0 {
		status = http.StatusOK
	}

	if err := w.Do(req.Method, req.URL.String(), 0, func(int) error { return nil }); err != nil {
		code, ok := err.(statusError)
		if !ok {
			return nil, err
		}

		status = int(code)
	}

	if r.Down {
		return nil, &netError{"connection refused"}
	}

	if req.Method == http.MethodGet && r.Get != 0 {
		status = r.Get
	}

	hop := 0
	if strings.HasPrefix(req.URL.Host, "mirror") {
		hop, _ = strconv.Atoi(req.URL.Host[len("mirror"):])
	}

	if hop < r.Hops {
		return &http.Response{
			Status: fmt.Sprintf("%d x", r.HopCode), StatusCode: r.HopCode, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{
				"Location": []string{fmt.Sprintf("http://mirror%d/dict", hop+1)}, "Last-Modified": []string{"Mon, 02 Jan 2006 15:04:05 GMT"},
			}, Body: http.NoBody, Request: req, ContentLength: 0,
		}, nil
	}

	res := &http.Response{
		Status: fmt.Sprintf("%d x", status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: http.NoBody, Request: req, ContentLength: -1,
	}

	for name, value := range r.Others {
		res.Header[name] = []string{value}
	}

	if r.Length > 0 {
		res.ContentLength = r.Length - 1
		res.Header["Content-Length"] = []string{strconv.FormatInt(res.ContentLength, 10)}
	}

	if r.Proto != "" {
		res.Proto, res.ProtoMajor, res.ProtoMinor = "HTTP/"+r.Proto, int(r.Proto[0]-'0'), int(r.Proto[2]-'0')
	}

	switch {
	case r.Header != nil:
		res.Header["Last-Modified"] = []string{*r.Header}
	case !r.Missing:
		res.Header.Set("Last-Modified", r.Modified.UTC().Format(http.TimeFormat))
	}

	if req.Method == http.MethodGet {
		data := []byte("<html>error</html>")
		if status == http.StatusOK {
			data = archives[r.Version]
		}

		if r.Garbage != nil {
			data = r.Garbage
		}

		b := &body{w: w, data: data, chunk: r.Chunk}
		r.Bodies = append(r.Bodies, b)
		res.Body = b
	}

	return res, nil
}

type netError struct{ text string }

func (e *netError) Error() string { return e.text }

type body struct {
	w      *world.World
	data   []byte
	pos    int
	chunk  int
	closed bool
	end    error
}

func (b *body) Read(p []byte) (n int, err error) {
	if b.closed {
		return 0, errors.New("read of closed body")
	}

	if b.end != nil {
		return 0, b.end
	}

	size := min(len(p), len(b.data)-b.pos)
	if b.chunk > 0 {
		size = min(size, b.chunk)
	}

	if size == 0 {
		return 0, io.EOF
	}

	err = b.w.Do("body", "body", size, func(keep int) error {
		n = copy(p[:keep], b.data[b.pos:])
		b.pos += n

		return nil
	})

	if err == errCut {
		err = io.EOF
	}

	if err != nil {
		b.end = err
	}

	return n, err
}

func (b *body) Close() error {
	b.closed = true
	return nil
}

// newWorld is a machine with a reachable remote having the first version, modified a day ago.
func newWorld() *world.World {
	w := world.New(workDir)
	w.Ext = &remote{Modified: w.Clock.Add(-24 * time.Hour).Truncate(time.Second), Chunk: 64}

	return w
}

func clone(w *world.World) *world.World {
	c := w.Clone()
	r := *w.Ext.(*remote)
	r.Requests, r.Bodies = nil, nil
	c.Ext = &r

	return c
}

// spec describes a fault of one operation.
type spec struct {
	N    int    `json:"n"`
	Kind string `json:"kind"` // error, death, cut, lost (what was written last), or a status
	Keep int    `json:"keep,omitempty"`
	On   string `json:"on,omitempty"` // operation, for the reader
}

func (s *spec) plan() func(op world.Op) *world.Fault {
	if s == nil {
		return nil
	}

	return func(op world.Op) *world.Fault {
		if op.N != s.N {
			return nil
		}

		keep := min(s.Keep, op.Size)

		switch s.Kind {
		case "death":
			return &world.Fault{Death: true, Keep: keep}
		case "cut":
			return &world.Fault{Err: errCut, Keep: keep}
		case "lost":
			return &world.Fault{Err: syscall.ENOSPC, Lose: true}
		case "404":
			return &world.Fault{Err: statusError(404)}
		case "500":
			return &world.Fault{Err: statusError(500)}
		}

		var err error = syscall.EIO

		switch op.Kind {
		case "write", "create", "create new", "mkdirall", "mkdir":
			err = syscall.ENOSPC
		case "stat", "open", "rename", "remove":
			err = syscall.EACCES
		case "HEAD", "GET":
			err = &netError{"connection reset"}
		case "body":
			err = io.ErrUnexpectedEOF
		}

		return &world.Fault{Err: err, Keep: keep}
	}
}

// faults lists the faults an operation can have. Death after an operation is death before the next one.
func faults(op world.Op, every bool) (res []spec) {
	add := func(kind string, keep int) {
		res = append(res, spec{N: op.N, Kind: kind, Keep: keep, On: op.Kind + " " + path.Base(op.Path)})
	}
	keeps := []int{0}

	if op.Size > 1 {
		keeps = []int{0, op.Size / 2}
	}

	if op.Size > 2 {
		keeps = []int{0, op.Size / 2, op.Size - 1}
	}

	if every {
		keeps = nil
		for k := 0; k < max(op.Size, 1); k++ {
			keeps = append(keeps, k)
		}
	}

	switch op.Kind {
	case "HEAD", "GET":
		add("error", 0)
		add("404", 0)
		add("500", 0)
		add("death", 0)
	case "body":
		for _, k := range keeps {
			add("error", k)
			add("cut", k)
		}

		add("death", 0)
	case "write":
		for _, k := range keeps {
			add("error", k)
			add("death", k)
		}
	case "read":
		for _, k := range keeps {
			add("error", k)
		}

		add("death", 0)
	case "close written", "sync written":
		add("error", 0)
		add("lost", 0)
		add("death", 0)
	default:
		add("error", 0)
		add("death", 0)
	}

	return res
}

// outcome is how a process ended.
type outcome struct {
	err   error
	lived bool
	panic string
}

// process runs code of the loader on a machine as one process.
func process(w *world.World, plan func(op world.Op) *world.Fault, code func(l *opencorpora.Loader) error) (o outcome) {
	w.Plan, w.N, w.Dead, w.Exited = plan, 0, false, false

	o.lived = w.Run(func() {
		defer func() {
			if p := recover(); p != nil {
				o.panic = fmt.Sprint(p)
			}
		}()

		o.err = code(opencorpora.NewLoader(""))
	})

	w.Plan, w.Log, w.Touched = nil, nil, nil

	return o
}

// ops lists the operations of a process without faults.
func ops(w *world.World, code func(l *opencorpora.Loader) error) (res []world.Op, o outcome) {
	w.Log = func(op world.Op) { res = append(res, op) }
	o = process(w, nil, code)

	return res, o
}

// tick passes time between processes.
func tick(w *world.World) { w.Clock = w.Clock.Add(time.Hour) }

// describe is the content of an index.
func describe(ix *index.Index) string {
	var b strings.Builder

	b.WriteString("tags")

	for _, tag := range ix.Tags() {
		fmt.Fprintf(&b, " %s<%s", tag.Name, tag.Parent)
	}

	var words []string

	for id := 1; id <= ix.NodesCount(); id++ {
		node, err := ix.Get(dag.ID(id))
		if err != nil {
			return fmt.Sprintf("node %d: %v", id, err)
		}

		var sets []string

		for _, tagSet := range node.TagSets() {
			var names []string
			for _, tag := range tagSet {
				names = append(names, fmt.Sprintf("%s<%s", tag.Name, tag.Parent))
			}

			sort.Strings(names)
			sets = append(sets, "["+strings.Join(names, " ")+"]")
		}

		sort.Strings(sets)
		words = append(words, fmt.Sprintf("%q %s", node.Word(), strings.Join(sets, "")))
	}

	sort.Strings(words)
	fmt.Fprintf(&b, "\nwords %d\n%s", ix.WordsCount(), strings.Join(words, "\n"))

	return b.String()
}

// document is a dictionary as the reference sees it.
type document struct {
	Grammemes []struct {
		Parent string `xml:"parent,attr"`
		Name   string `xml:"name"`
	} `xml:"grammemes>grammeme"`
	Lemmata []struct {
		L struct {
			G []value `xml:"g"`
		} `xml:"l"`
		F []struct {
			T string  `xml:"t,attr"`
			G []value `xml:"g"`
		} `xml:"f"`
	} `xml:"lemmata>lemma"`
}

type value struct {
	V string `xml:"v,attr"`
}

func parse(text string) (d document) {
	if err := xml.Unmarshal([]byte(text), &d); err != nil {
		panic(err)
	}

	return d
}

// expectedOf is the content an index of a well-formed dictionary must have.
func expectedOf(text string) string {
	d := parse(text)

	var (
		b       strings.Builder
		parents = map[string]string{}
		sets    = map[string]map[string]bool{}
	)

	b.WriteString("tags")

	for _, g := range d.Grammemes {
		if _, ok := parents[g.Name]; ok {
			continue
		}

		if g.Parent == "" {
			g.Parent = "----"
		}

		parents[g.Name] = g.Parent
		fmt.Fprintf(&b, " %s<%s", g.Name, g.Parent)
	}

	for _, lemma := range d.Lemmata {
		for _, f := range lemma.F {
			letters := []rune(f.T)
			for i := range letters {
				if sets[string(letters[:i+1])] == nil {
					sets[string(letters[:i+1])] = map[string]bool{}
				}
			}

			var names []string
			for _, g := range append(append([]value{}, lemma.L.G...), f.G...) {
				names = append(names, g.V+"<"+parents[g.V])
			}

			sort.Strings(names)

			if len(names) > 0 {
				sets[f.T]["["+strings.Join(names, " ")+"]"] = true
			}
		}
	}

	var (
		words []string
		count int
	)

	for word, list := range sets {
		var all []string
		for s := range list {
			all = append(all, s)
		}

		sort.Strings(all)

		if len(all) > 0 {
			count++
		}

		words = append(words, fmt.Sprintf("%q %s", word, strings.Join(all, "")))
	}

	sort.Strings(words)
	fmt.Fprintf(&b, "\nwords %d\n%s", count, strings.Join(words, "\n"))

	return b.String()
}

// load is what loading the compiled index gives on a copy of the machine.
func load(w *world.World) (content string, err error) {
	c := clone(w)
	o := process(c, nil, func(l *opencorpora.Loader) error {
		ix, err := l.LoadIndex()
		if err != nil {
			return err
		}

		content = describe(ix)

		return nil
	})

	if o.panic != "" {
		return "", errors.New("panic: " + o.panic)
	}

	return content, o.err
}

var loaded sync.Map

// compiled is the version of the compiled index: -1 when there is none, -2 when it can not be loaded or is something else.
func compiled(w *world.World) int {
	n, ok := w.Nodes[compiledFile]
	if !ok {
		return -1
	}

	if v, ok := loaded.Load(string(n.Data)); ok {
		return v.(int)
	}

	version := -2

	if content, err := load(w); err == nil {
		for i, c := range contents {
			if c == content {
				version = i
			}
		}
	}

	loaded.Store(string(n.Data), version)

	return version
}

// archived is the version of the downloaded archive: -1 when there is none, -2 when it is damaged.
func archived(w *world.World) int {
	n, ok := w.Nodes[archiveFile]
	if !ok {
		return -1
	}

	for i, a := range archives {
		if string(a) == string(n.Data) {
			return i
		}
	}

	return -2
}
