//go:build go1.22

// Package world is a simulated machine: a file system in memory, a clock and a plan of faults. Code under test whose
// imports of os, time, path/filepath and io/ioutil are replaced works on the world its goroutine is attached to.
package world

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Node is a file or a directory.
type Node struct {
	Dir   bool
	Data  []byte
	MTime time.Time
	Perm  fs.FileMode
	Label string // the process that made it and the first name, if processes are told apart
}

// Op is an operation of the process about to be made.
type Op struct {
	N    int
	Kind string
	Path string
	Size int
	Node *Node // of an open file
}

func (o Op) String() string { return fmt.Sprintf("#%d %s %s (%d)", o.N, o.Kind, o.Path, o.Size) }

// Fault is what happens instead of an operation: Err with Keep bytes done, or the death of the process.
type Fault struct {
	Err   error
	Death bool
	After bool // the operation takes effect before the death
	Keep  int  // bytes of a write or read that are done
	Lose  bool // closing or syncing: what was written last through the handle is lost
}

// Lost is the effect of closing or syncing which loses what was written last.
const Lost = -1

// ErrDead is the result of everything done after the death of the process.
var ErrDead = errors.New("process is dead")

// Endless is the number of operations taken for an endless loop; real processes make less than a hundredth of it.
const Endless = 1000000

// World is a machine.
type World struct {
	mu       sync.Mutex
	Nodes    map[string]*Node
	Cwd      string
	Clock    time.Time
	Tick     time.Duration // clock progress of every change
	Pace     time.Duration // clock progress of every look at the clock
	MaxRead  int           // at most so many bytes are delivered by a read, 0 for no limit
	Plan     func(op Op) *Fault
	Log      func(op Op)
	Touched  func(op Op)
	N        int
	Dead     bool
	ExitCode int
	Exited   bool
	Ext      any         // what belongs to the harness
	Yield    func(op Op) // called before an operation, with nothing held
	Shared   *time.Time  // clock shared by processes of one machine
	Name     string      // of the process
	Opened   func(n *Node, writable bool)
	Track    bool      // keep all handles in Handles
	Handles  []*Handle // opened by the process
	temp     int
}

// New is an empty machine.
func New(cwd string) *World {
	w := &World{Nodes: map[string]*Node{"/": {Dir: true, Perm: 0o755}}, Cwd: cwd, Clock: time.Date(2024, 3, 10, 12, 0, 0, 0, time.UTC), Tick: time.Millisecond}
	w.SetDir(cwd)

	return w
}

// Clone is a copy of what survives a process.
func (w *World) Clone() *World {
	c := &World{Nodes: make(map[string]*Node, len(w.Nodes)), Cwd: w.Cwd, Clock: w.Clock, Tick: w.Tick, Pace: w.Pace, MaxRead: w.MaxRead}

	for name, n := range w.Nodes {
		copied := *n
		copied.Data = append([]byte(nil), n.Data...)
		c.Nodes[name] = &copied
	}

	return c
}

// Process is another process of the machine: it has its own faults but the same files and clock.
func (w *World) Process() *World {
	if w.Shared == nil {
		clock := w.Clock
		w.Shared = &clock
	}

	return &World{Nodes: w.Nodes, Cwd: w.Cwd, Clock: w.Clock, Tick: w.Tick, Pace: w.Pace, MaxRead: w.MaxRead, Shared: w.Shared, Ext: w.Ext}
}

// SetDir makes a directory with its parents.
func (w *World) SetDir(name string) {
	for name = path.Clean(name); ; name = path.Dir(name) {
		if _, ok := w.Nodes[name]; !ok {
			w.Nodes[name] = &Node{Dir: true, Perm: 0o755, MTime: w.Clock}
		}

		if name == "/" {
			return
		}
	}
}

// SetFile makes a file.
func (w *World) SetFile(name string, data []byte, mtime time.Time) {
	w.SetDir(path.Dir(name))
	w.Nodes[name] = &Node{Data: append([]byte(nil), data...), MTime: mtime, Perm: 0o644}
}

// Dump describes all files.
func (w *World) Dump() string {
	var names []string
	for name := range w.Nodes {
		names = append(names, name)
	}

	sort.Strings(names)

	var res strings.Builder

	for _, name := range names {
		n := w.Nodes[name]
		if n.Dir {
			fmt.Fprintf(&res, "%s/\n", strings.TrimSuffix(name, "/"))
		} else {
			fmt.Fprintf(&res, "%s %q @%d\n", name, n.Data, n.MTime.UnixNano())
		}
	}

	return res.String()
}

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

var (
	attached sync.Map
	serial   atomic.Int64
)

// Run runs a process on the machine; it reports false when the process died (or left with an exit).
func (w *World) Run(process func()) (lived bool) {
	done := make(chan any, 1)

	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("world", strconv.FormatInt(serial.Add(1), 10))))
		label := getProfLabel()
		attached.Store(label, w)

		defer func() {
			attached.Delete(label)
			done <- recover()
		}()

		process()

		lived = true
	}()

	if p := <-done; p != nil {
		panic(p)
	}

	return lived && !w.Dead && !w.Exited
}

// Current is the machine of this goroutine.
func Current() *World {
	if w, ok := attached.Load(getProfLabel()); ok {
		return w.(*World)
	}

	panic("no simulated world is attached to this goroutine")
}

// Do makes an operation: effect is called with the number of bytes allowed (size unless cut) if it takes place.
func (w *World) Do(kind, name string, size int, effect func(keep int) error) error {
	return w.do(nil, kind, name, size, effect)
}

func (w *World) do(node *Node, kind, name string, size int, effect func(keep int) error) error {
	if w.Yield != nil && !w.Dead && !w.Exited {
		w.Yield(Op{w.N + 1, kind, name, size, node})
	}

	w.mu.Lock()

	if w.Shared != nil {
		w.Clock = *w.Shared
	}

	if w.N >= Endless {
		w.mu.Unlock()
		panic(fmt.Sprintf("the process goes on after %d operations, last: %s %s", w.N, kind, name))
	}

	err, death := w.perform(node, kind, name, size, effect)

	if w.Shared != nil {
		*w.Shared = w.Clock
	}

	w.mu.Unlock()

	if death {
		runtime.Goexit()
	}

	return err
}

func (w *World) perform(node *Node, kind, name string, size int, effect func(keep int) error) (err error, death bool) {
	if w.Dead || w.Exited {
		return ErrDead, false
	}

	w.N++
	op := Op{w.N, kind, name, size, node}

	if w.Log != nil {
		w.Log(op)
	}

	if w.Touched != nil {
		w.Touched(op)
	}

	var fault *Fault

	if w.Plan != nil {
		fault = w.Plan(op)
	}

	switch {
	case fault == nil:
		return effect(size), false
	case fault.Death:
		if fault.After {
			_ = effect(size)
		} else if fault.Keep > 0 {
			_ = effect(fault.Keep)
		}

		w.Dead = true

		return ErrDead, true
	default:
		if fault.Keep > 0 {
			_ = effect(fault.Keep)
		}

		if fault.Lose {
			_ = effect(Lost)
		}

		return fault.Err, false
	}
}

// Exit ends the process.
func (w *World) Exit(code int) {
	w.mu.Lock()
	if !w.Dead && !w.Exited {
		w.Exited, w.ExitCode = true, code
	}
	w.mu.Unlock()
	runtime.Goexit()
}

// Now is the time of the machine.
func (w *World) Now() time.Time {
	w.mu.Lock()
	defer w.mu.Unlock()

	w.Clock = w.Clock.Add(w.Pace)

	return w.Clock
}

// Sleep lets time pass.
func (w *World) Sleep(d time.Duration) {
	w.mu.Lock()
	defer w.mu.Unlock()

	if d > 0 {
		w.Clock = w.Clock.Add(d)
	}
}

func (w *World) stamp() time.Time {
	w.Clock = w.Clock.Add(w.Tick)
	return w.Clock
}

// Abs is the cleaned absolute form of a name.
func (w *World) Abs(name string) string {
	if !path.IsAbs(name) {
		name = w.Cwd + "/" + name
	}

	return path.Clean(name)
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}

	if _, ok := err.(*fs.PathError); ok {
		return err
	}

	return &fs.PathError{Op: op, Path: name, Err: err}
}

// lookup resolves a name like the kernel does: every parent must be a directory.
func (w *World) lookup(name string) (string, *Node, error) {
	if name == "" {
		return "", nil, syscall.ENOENT
	}

	if strings.ContainsRune(name, 0) {
		return "", nil, syscall.EINVAL
	}

	full := w.Abs(name)

	for dir := path.Dir(full); dir != "/"; dir = path.Dir(dir) {
		if n, ok := w.Nodes[dir]; ok && !n.Dir {
			return full, nil, syscall.ENOTDIR
		}
	}

	if parent, ok := w.Nodes[path.Dir(full)]; !ok || !parent.Dir {
		return full, nil, syscall.ENOENT
	}

	n := w.Nodes[full]
	if n == nil {
		return full, nil, syscall.ENOENT
	}

	if !n.Dir && strings.HasSuffix(name, "/") {
		return full, nil, syscall.ENOTDIR
	}

	return full, n, nil
}

// canCreate tells whether a name that does not exist can be created.
func (w *World) canCreate(full string) error {
	parent, ok := w.Nodes[path.Dir(full)]
	if !ok {
		return syscall.ENOENT
	}

	if !parent.Dir {
		return syscall.ENOTDIR
	}

	return nil
}

// Info is a file's description.
type Info struct {
	name string
	size int64
	mode fs.FileMode
	time time.Time
	node *Node
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return i.time }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() any           { return i.node }

func info(full string, n *Node) *Info {
	mode := n.Perm
	if n.Dir {
		mode |= fs.ModeDir
	}

	return &Info{path.Base(full), int64(len(n.Data)), mode, n.MTime, n}
}

// Stat describes a file.
func (w *World) Stat(name string) (res fs.FileInfo, err error) {
	err = w.Do("stat", w.Abs(name), 0, func(int) error {
		full, n, err := w.lookup(name)
		if err == nil {
			res = info(full, n)
		}

		return err
	})
	if err != nil {
		return nil, perr("stat", name, err)
	}

	return res, nil
}

// Open flags, as of package os.
const (
	flagWrite  = syscall.O_WRONLY
	flagRW     = syscall.O_RDWR
	flagAppend = syscall.O_APPEND
	flagCreate = syscall.O_CREAT
	flagExcl   = syscall.O_EXCL
	flagTrunc  = syscall.O_TRUNC
)

// OpenFile opens a file.
func (w *World) OpenFile(name string, flag int, perm fs.FileMode) (f *Handle, err error) {
	kind := "open"
	if flag&(flagCreate|flagTrunc) != 0 {
		kind = "create"
	}

	if flag&flagCreate != 0 && flag&flagExcl != 0 {
		kind = "create new"
	}

	err = w.Do(kind, w.Abs(name), 0, func(int) error {
		full, n, err := w.lookup(name)

		switch {
		case err == nil && flag&flagExcl != 0 && flag&flagCreate != 0:
			return syscall.EEXIST
		case err == nil && n.Dir && flag&(flagWrite|flagRW) != 0:
			return syscall.EISDIR
		case err == syscall.ENOENT && flag&flagCreate != 0 && name != "" && !strings.HasSuffix(name, "/"):
			if err = w.canCreate(full); err != nil {
				return err
			}

			n = &Node{MTime: w.stamp(), Perm: perm & 0o777 &^ 0o022, Label: w.Name + " " + full}
			w.Nodes[full] = n
			w.Nodes[path.Dir(full)].MTime = w.Clock
		case err != nil:
			return err
		}

		if flag&flagTrunc != 0 && flag&(flagWrite|flagRW) != 0 && !n.Dir {
			n.Data, n.MTime = nil, w.stamp()
		}

		f = &Handle{
			w: w, name: name, full: full, node: n,
			readable: flag&flagWrite == 0, writable: flag&(flagWrite|flagRW) != 0, appending: flag&flagAppend != 0,
		}

		if w.Opened != nil {
			w.Opened(n, f.writable)
		}

		if w.Track {
			w.Handles = append(w.Handles, f)
		}

		return nil
	})
	if err != nil {
		return nil, perr("open", name, err)
	}

	return f, nil
}

// Mkdir makes a directory.
func (w *World) Mkdir(name string, perm fs.FileMode) error {
	return perr("mkdir", name, w.Do("mkdir", w.Abs(name), 0, func(int) error {
		full, _, err := w.lookup(name)
		if err == nil {
			return syscall.EEXIST
		}

		if err != syscall.ENOENT || name == "" {
			return err
		}

		if err = w.canCreate(full); err != nil {
			return err
		}

		w.Nodes[full] = &Node{Dir: true, MTime: w.stamp(), Perm: perm & 0o777 &^ 0o022}

		return nil
	}))
}

// MkdirAll makes a directory with its parents.
func (w *World) MkdirAll(name string, perm fs.FileMode) error {
	err := w.Do("mkdirall", w.Abs(name), 0, func(int) error {
		if name == "" {
			return syscall.ENOENT
		}

		full := w.Abs(name)

		var missing []string

		for dir := full; dir != "/"; dir = path.Dir(dir) {
			n, ok := w.Nodes[dir]

			switch {
			case ok && !n.Dir:
				return syscall.ENOTDIR
			case !ok:
				missing = append(missing, dir)
			}
		}

		for i := len(missing) - 1; i >= 0; i-- {
			w.Nodes[missing[i]] = &Node{Dir: true, MTime: w.stamp(), Perm: perm & 0o777 &^ 0o022}
		}

		return nil
	})

	return perr("mkdir", name, err)
}

// Remove removes a file or an empty directory.
func (w *World) Remove(name string) error {
	return perr("remove", name, w.Do("remove", w.Abs(name), 0, func(int) error {
		full, n, err := w.lookup(name)
		if err != nil {
			return err
		}

		if n.Dir {
			for other := range w.Nodes {
				if path.Dir(other) == full && other != full {
					return syscall.ENOTEMPTY
				}
			}
		}

		delete(w.Nodes, full)
		w.stamp()

		return nil
	}))
}

// RemoveAll removes a tree.
func (w *World) RemoveAll(name string) error {
	return perr("removeall", name, w.Do("removeall", w.Abs(name), 0, func(int) error {
		full, _, err := w.lookup(name)
		if err == syscall.ENOENT {
			return nil
		}

		if err != nil {
			return err
		}

		for other := range w.Nodes {
			if other == full || strings.HasPrefix(other, strings.TrimSuffix(full, "/")+"/") {
				delete(w.Nodes, other)
			}
		}

		w.stamp()

		return nil
	}))
}

// LinkError makes the error of a failed rename.
var LinkError func(op, from, to string, err error) error

// Rename renames a file or a directory.
func (w *World) Rename(from, to string) error {
	if w.Touched != nil {
		w.mu.Lock()
		w.Touched(Op{w.N, "rename from", w.Abs(from), 0, nil})
		w.mu.Unlock()
	}

	err := w.Do("rename", w.Abs(to), 0, func(int) error {
		source, n, err := w.lookup(from)
		if err != nil {
			return err
		}

		target, old, err := w.lookup(to)
		if err != nil && err != syscall.ENOENT {
			return err
		}

		if err == syscall.ENOENT {
			if err = w.canCreate(target); err != nil {
				return err
			}
		}

		switch {
		case old == n:
			return nil
		case old != nil && old.Dir && !n.Dir:
			return syscall.EEXIST
		case old != nil && !old.Dir && n.Dir:
			return syscall.ENOTDIR
		case n.Dir && strings.HasPrefix(target, source+"/"):
			return syscall.EINVAL
		}

		if old != nil && old.Dir {
			for other := range w.Nodes {
				if path.Dir(other) == target && other != target {
					return syscall.ENOTEMPTY
				}
			}
		}

		moved := map[string]*Node{}

		for other, node := range w.Nodes {
			if other == source || strings.HasPrefix(other, source+"/") {
				moved[target+other[len(source):]] = node
				delete(w.Nodes, other)
			}
		}

		for other, node := range moved {
			w.Nodes[other] = node
		}

		w.stamp()

		return nil
	})
	if err != nil {
		return LinkError("rename", from, to, err)
	}

	return nil
}

// Chtimes sets the modification time.
func (w *World) Chtimes(name string, _, mtime time.Time) error {
	return perr("chtimes", name, w.Do("chtimes", w.Abs(name), 0, func(int) error {
		_, n, err := w.lookup(name)
		if err == nil && !mtime.IsZero() {
			n.MTime = mtime
		}

		return err
	}))
}

// Chmod changes permissions (they are not enforced).
func (w *World) Chmod(name string, perm fs.FileMode) error {
	return perr("chmod", name, w.Do("chmod", w.Abs(name), 0, func(int) error {
		_, n, err := w.lookup(name)
		if err == nil {
			n.Perm = perm & 0o777
		}

		return err
	}))
}

// Truncate changes the size of a file.
func (w *World) Truncate(name string, size int64) error {
	return perr("truncate", name, w.Do("truncate", w.Abs(name), 0, func(int) error {
		_, n, err := w.lookup(name)
		if err != nil {
			return err
		}

		return w.resize(n, size)
	}))
}

func (w *World) resize(n *Node, size int64) error {
	if n.Dir {
		return syscall.EISDIR
	}

	if size < 0 {
		return syscall.EINVAL
	}

	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}

	n.Data, n.MTime = n.Data[:size], w.stamp()

	return nil
}

// ReadDir lists a directory.
func (w *World) ReadDir(name string) (res []fs.DirEntry, err error) {
	err = w.Do("readdir", w.Abs(name), 0, func(int) error {
		full, n, err := w.lookup(name)
		if err != nil {
			return err
		}

		if !n.Dir {
			return syscall.ENOTDIR
		}

		for other, node := range w.Nodes {
			if path.Dir(other) == full && other != full {
				res = append(res, fs.FileInfoToDirEntry(info(other, node)))
			}
		}

		sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })

		return nil
	})
	if err != nil {
		return nil, perr("open", name, err)
	}

	return res, nil
}

// Chdir changes the working directory.
func (w *World) Chdir(name string) error {
	return perr("chdir", name, w.Do("chdir", w.Abs(name), 0, func(int) error {
		full, n, err := w.lookup(name)
		if err != nil {
			return err
		}

		if !n.Dir {
			return syscall.ENOTDIR
		}

		w.Cwd = full

		return nil
	}))
}

// TempName makes a new name from a pattern.
func (w *World) TempName(dir, pattern string) string {
	w.mu.Lock()
	defer w.mu.Unlock()

	if dir == "" {
		dir = "/tmp"
	}

	prefix, suffix := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}

	for {
		w.temp++

		name := dir + "/" + prefix + strconv.Itoa(1000+w.temp) + suffix
		if _, ok := w.Nodes[w.Abs(name)]; !ok {
			return name
		}
	}
}

// Handle is an open file.
type Handle struct {
	w                             *World
	name                          string
	full                          string
	node                          *Node
	pos                           int
	readable, writable, appending bool
	closed                        bool
	last                          *lastWrite
}

// lastWrite is what the last write through a handle replaced.
type lastWrite struct {
	at, size, before int    // bytes written, length of the file before
	was              []byte // bytes replaced
}

// lose takes the last write through the handle back.
func (h *Handle) lose() {
	l := h.last
	if l == nil || len(h.node.Data) < l.at+l.size {
		return
	}

	copy(h.node.Data[l.at:], l.was)

	if len(h.node.Data) == l.at+l.size {
		h.node.Data = h.node.Data[:max(l.before, l.at)]
	}

	h.last = nil
}

func (h *Handle) check(op string, need bool) error {
	if h == nil {
		return fs.ErrInvalid
	}

	if h.closed {
		return perr(op, h.name, fs.ErrClosed)
	}

	if !need {
		return perr(op, h.name, syscall.EBADF)
	}

	return nil
}

// Name is the name used to open.
func (h *Handle) Name() string { return h.name }

// Read reads.
func (h *Handle) Read(p []byte) (n int, err error) {
	if err = h.check("read", h.readable); err != nil {
		return 0, err
	}

	if len(p) == 0 {
		return 0, nil
	}

	size := len(h.node.Data) - h.pos
	if size > len(p) {
		size = len(p)
	}

	if h.w.MaxRead > 0 && size > h.w.MaxRead {
		size = h.w.MaxRead
	}

	if size < 0 {
		size = 0
	}

	err = h.w.do(h.node, "read", h.full, size, func(keep int) error {
		if h.node.Dir {
			return syscall.EISDIR
		}

		n = copy(p[:keep], h.node.Data[min(h.pos, len(h.node.Data)):])
		h.pos += n

		return nil
	})
	if err != nil {
		return n, perr("read", h.name, err)
	}

	if n == 0 {
		return 0, io.EOF
	}

	return n, nil
}

// ReadAt reads at an offset.
func (h *Handle) ReadAt(p []byte, off int64) (n int, err error) {
	if err = h.check("read", h.readable); err != nil {
		return 0, err
	}

	err = h.w.do(h.node, "read", h.full, len(p), func(int) error {
		if off < int64(len(h.node.Data)) {
			n = copy(p, h.node.Data[off:])
		}

		return nil
	})
	if err != nil {
		return n, perr("read", h.name, err)
	}

	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

func (h *Handle) put(p []byte, at int) {
	if len(p) > 0 {
		h.last = &lastWrite{at: at, size: len(p), before: len(h.node.Data)}
		if at < len(h.node.Data) {
			h.last.was = append([]byte{}, h.node.Data[at:min(at+len(p), len(h.node.Data))]...)
		}
	}

	for len(h.node.Data) < at {
		h.node.Data = append(h.node.Data, 0)
	}

	n := copy(h.node.Data[at:], p)
	h.node.Data = append(h.node.Data, p[n:]...)
	h.node.MTime = h.w.stamp()
}

// Write writes.
func (h *Handle) Write(p []byte) (n int, err error) {
	if err = h.check("write", h.writable); err != nil {
		return 0, err
	}

	err = h.w.do(h.node, "write", h.full, len(p), func(keep int) error {
		if h.appending {
			h.pos = len(h.node.Data)
		}

		h.put(p[:keep], h.pos)
		h.pos += keep
		n = keep

		return nil
	})

	return n, perr("write", h.name, err)
}

// WriteAt writes at an offset.
func (h *Handle) WriteAt(p []byte, off int64) (n int, err error) {
	if err = h.check("write", h.writable); err != nil {
		return 0, err
	}

	err = h.w.do(h.node, "write", h.full, len(p), func(keep int) error {
		h.put(p[:keep], int(off))
		n = keep

		return nil
	})

	return n, perr("write", h.name, err)
}

// Seek moves.
func (h *Handle) Seek(offset int64, whence int) (int64, error) {
	if err := h.check("seek", true); err != nil {
		return 0, err
	}

	switch whence {
	case io.SeekCurrent:
		offset += int64(h.pos)
	case io.SeekEnd:
		offset += int64(len(h.node.Data))
	}

	if offset < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}

	h.pos = int(offset)

	return offset, nil
}

// Truncate changes the size.
func (h *Handle) Truncate(size int64) error {
	if err := h.check("truncate", h.writable); err != nil {
		return err
	}

	return perr("truncate", h.name, h.w.do(h.node, "truncate", h.full, 0, func(int) error { return h.w.resize(h.node, size) }))
}

// Sync flushes.
func (h *Handle) Sync() error {
	if err := h.check("sync", true); err != nil {
		return err
	}

	kind := "sync"

	if h.writable {
		kind = "sync written"
	}

	return perr("sync", h.name, h.w.do(h.node, kind, h.full, 0, h.settle))
}

// Stat describes.
func (h *Handle) Stat() (res fs.FileInfo, err error) {
	if err = h.check("stat", true); err != nil {
		return nil, err
	}

	err = h.w.do(h.node, "stat", h.full, 0, func(int) error {
		res = info(h.full, h.node)
		return nil
	})
	if err != nil {
		return nil, perr("stat", h.name, err)
	}

	return res, nil
}

// Chmod changes permissions.
func (h *Handle) Chmod(perm fs.FileMode) error {
	if err := h.check("chmod", true); err != nil {
		return err
	}

	return perr("chmod", h.name, h.w.do(h.node, "chmod", h.full, 0, func(int) error {
		h.node.Perm = perm & 0o777
		return nil
	}))
}

// Closed tells whether the handle was closed.
func (h *Handle) Closed() bool { return h.closed }

// Path is the absolute name.
func (h *Handle) Path() string { return h.full }

// Close closes; the handle is closed even if an error is reported.
func (h *Handle) Close() error {
	if err := h.check("close", true); err != nil {
		return err
	}

	h.closed = true
	kind := "close"

	if h.writable {
		kind = "close written"
	}

	return perr("close", h.name, h.w.do(h.node, kind, h.full, 0, h.settle))
}

func (h *Handle) settle(n int) error {
	if n == Lost {
		h.lose()
	} else {
		h.last = nil
	}

	return nil
}
