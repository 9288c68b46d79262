//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"

	"verif.local/sim/world"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// checking is a situation in which the need of an update is asked for.
type checking struct {
	Local    string `json:"local"`              // none, file, or an error of everything done with the file
	Modified string `json:"modified,omitempty"` // of the file
	Nano     int    `json:"nano,omitempty"`
	Remote   string `json:"remote"` // ok, an error, or a status
	Header   string `json:"header"` // none, a number of seconds after the file's, =value, or !value that is not a time
	Hops     int    `json:"hops,omitempty"`
	HopCode  int    `json:"hop_code,omitempty"`
	// What must not matter.
	Proto  string `json:"proto,omitempty"`
	Length int64  `json:"length,omitempty"`
	Other  string `json:"other,omitempty"`  // header field: value
	Size   string `json:"size,omitempty"`   // of the local file: empty, one, same, huge
	Beside string `json:"beside,omitempty"` // other files: u and c older, U and C younger
}

var (
	localErrors = map[string]error{
		"EACCES": syscall.EACCES, "EIO": syscall.EIO, "EPERM": syscall.EPERM, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG,
		"EMFILE": syscall.EMFILE, "ESTALE": syscall.ESTALE,
	}
	remoteErrors = map[string]error{
		"refused": &netError{"connection refused"}, "reset": syscall.ECONNRESET, "eof": io.EOF, "cut": io.ErrUnexpectedEOF,
		"timeout": syscall.ETIMEDOUT, "unreachable": syscall.ENETUNREACH, "other": errors.New("malformed HTTP response"),
	}
)

const stampFormat = "2006-01-02T15:04:05"

func (k checking) modified() time.Time {
	t, err := time.Parse(stampFormat, k.Modified)
	if err != nil {
		panic(err)
	}

	return t.Add(time.Duration(k.Nano))
}

// header is the header sent, if any, and the time it means, if any.
func (k checking) header() (value string, sent bool, t time.Time, isTime bool) {
	switch {
	case k.Header == "none":
		return "", false, t, false
	case k.Header[0] == '!':
		return k.Header[1:], true, t, false
	case k.Header[0] == '=':
		t, err := time.Parse(stampFormat, k.Header[1:])
		if err != nil {
			panic(err)
		}

		return t.Format("Mon, 02 Jan 2006 15:04:05 GMT"), true, t, true
	}

	var seconds int64
	if _, err := fmt.Sscan(k.Header, &seconds); err != nil {
		panic(err)
	}

	base := time.Date(2024, 1, 15, 0, 0, 0, 0, time.UTC)
	if k.Local == "file" {
		base = time.Unix(k.modified().Unix(), 0).UTC()
	}

	t = base.Add(time.Duration(seconds) * time.Second)

	return t.Format("Mon, 02 Jan 2006 15:04:05 GMT"), true, t, true
}

// machine prepares a machine for the situation.
func (k checking) machine() (*world.World, func(op world.Op) *world.Fault) {
	w := newWorld()
	k.set(w)

	return w, k.plan()
}

func (k checking) set(w *world.World) {
	w.SetDir(dataDir)
	delete(w.Nodes, archiveFile)

	switch k.Local {
	case "none":
	case "file":
		w.SetFile(archiveFile, archives[1], k.modified())
	default:
		w.SetFile(archiveFile, archives[1], w.Clock)
	}

	if k.Local == "file" {
		switch k.Size {
		case "empty":
			w.SetFile(archiveFile, nil, k.modified())
		case "one":
			w.SetFile(archiveFile, []byte{0}, k.modified())
		case "same":
			w.SetFile(archiveFile, archives[0], k.modified())
		case "huge":
			w.SetFile(archiveFile, make([]byte, 1<<16), k.modified())
		}
	}

	for _, file := range k.Beside {
		name, base, shift := unpackedFile, w.Clock, -48*time.Hour
		if file == 'c' || file == 'C' {
			name = compiledFile
		}

		if file == 'U' || file == 'C' {
			shift = -shift
		}

		if k.Local == "file" {
			base = k.modified()
		}

		w.SetFile(name, []byte(versions[1].text), base.Add(shift))
	}

	r := &remote{Chunk: 64, Hops: k.Hops, HopCode: k.HopCode, Missing: true, Proto: k.Proto, Length: k.Length}
	w.Ext = r

	if k.Other != "" {
		name, value, _ := strings.Cut(k.Other, ": ")
		r.Others = map[string]string{name: value}
	}

	if value, sent, _, _ := k.header(); sent {
		r.Missing, r.Header = false, &value
	}

	if remoteErrors[k.Remote] == nil && k.Remote != "ok" {
		fmt.Sscan(k.Remote, &r.Status)
	}
}

func (k checking) plan() func(op world.Op) *world.Fault {
	return func(op world.Op) *world.Fault {
		if err := localErrors[k.Local]; err != nil && op.Path == archiveFile {
			return &world.Fault{Err: err}
		}

		if err := remoteErrors[k.Remote]; err != nil && (op.Kind == "HEAD" || op.Kind == "GET") {
			return &world.Fault{Err: err}
		}

		return nil
	}
}

// required is the right answer.
func (k checking) required() (required, fails bool) {
	switch {
	case k.Local == "none":
		return true, false
	case k.Local != "file", k.Remote != "ok":
		return false, true
	}

	_, sent, t, isTime := k.header()

	return sent && (!isTime || t.After(k.modified())), false
}

func (k checking) ask(x *mc.X) error {
	w, plan := k.machine()
	required, fails := k.required()
	before := w.Dump()

	var answer, updated bool

	x.Evals(2, 2)

	o := process(w, plan, func(l *opencorpora.Loader) (err error) {
		answer, err = l.IsUpdateRequired()
		return err
	})

	x.Outcome(fmt.Sprint(k.Local, k.Remote, answer, o.err == nil))

	if err := judge("the check", o, answer, required, fails); err != nil {
		return err
	}

	if now := w.Dump(); now != before {
		return mc.Failf("the check changes files:\n%s\nbefore:\n%s", now, before)
	}

	r := w.Ext.(*remote)
	for _, request := range r.Requests {
		if strings.HasPrefix(request, "GET") {
			return mc.Failf("the check downloads (%v)", r.Requests)
		}
	}

	// downloading
	w, plan = k.machine()
	o = process(w, plan, func(l *opencorpora.Loader) (err error) {
		updated, err = l.DownloadUpdate()
		return err
	})
	r = w.Ext.(*remote)
	served := k.Remote == "ok"

	if fails || !required {
		if err := judge("the download", o, updated, false, fails); err != nil {
			return err
		}

		for _, request := range r.Requests {
			if strings.HasPrefix(request, "GET") {
				return mc.Failf("a download not required makes requests %v", r.Requests)
			}
		}

		if now := w.Dump(); now != before {
			return mc.Failf("a download not required changes files:\n%s\nbefore:\n%s", now, before)
		}

		return nil
	}

	if err := judge("the download", o, updated, served, !served); err != nil {
		return err
	}

	if served && archived(w) != 0 {
		return mc.Failf("the download reports an update but the file downloaded is not the remote one")
	}

	if now := archived(w); !served && k.Local == "none" && now != -1 {
		return mc.Failf("the download fails but leaves a file (%d)", now)
	}

	return nil
}

func judge(what string, o outcome, answer, required, fails bool) error {
	switch {
	case o.panic != "":
		return mc.Failf("%s panics: %s", what, o.panic)
	case fails && o.err == nil:
		return mc.Failf("%s answers %v without the error expected", what, answer)
	case fails && answer:
		return mc.Failf("%s answers with an error but as true", what)
	case !fails && o.err != nil:
		return mc.Failf("%s fails: %v", what, o.err)
	case !fails && answer != required:
		return mc.Failf("%s answers %v instead of %v", what, answer, required)
	}

	return nil
}

func statuses() (res []string) {
	for code := 200; code < 600; code++ {
		if code == 200 || code >= 300 {
			res = append(res, fmt.Sprint(code))
		}
	}

	return res
}

var zones = []string{"UTC", "Europe/Moscow", "America/St_Johns", "Pacific/Kiritimati", "Europe/London"}

// inZone makes a time zone the local one of the process.
func inZone(name string) {
	loc, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}

	_ = time.Now().Local().String() // initialized
	*time.Local = *loc
}

func checkRequired(c *mc.C) {
	c.Rule("Every combination of local file (none, every time of a boundary list, every access error), remote (every status, every kind of failure, redirections) and modification time header (none, every distance of a list around the local time, fixed extreme times, values that are no time), in several time zones of the process, is asked on the real code; and every history of situations asked by one loader. evaluations: checks and downloads.")
	c.Assume("Statuses 201-299 and headers that only some readers understand (other date formats of RFC 9110, wrong weekday, numeric zones, empty value) are not judged.")

	modified := []string{"2024-03-10T12:00:00", "2024-03-31T00:59:59", "2024-10-27T01:00:00", "2023-12-31T23:59:59", "2024-02-29T00:00:00", "1970-01-01T00:00:00", "1969-12-31T23:59:58", "2038-01-19T03:14:07", "2106-02-07T06:28:15", "2300-01-01T00:00:00"}
	nanos := []int{0, 1, 1000, 999999, 1000000, 500000000, 999999999}

	var distances []string

	for _, d := range []int64{0, 1, 2, 59, 60, 3599, 3600, 7200, 12600, 43200, 50400, 86399, 86400, 604800, 2592000, 31536000, 2147483648, 4294967296} {
		distances = append(distances, fmt.Sprint(d), fmt.Sprint(-d))
	}

	distances = distances[1:]

	fixed := []string{"none", "=1970-01-01T00:00:00", "=1969-12-31T23:59:59", "=0001-01-01T00:00:00", "=9999-12-31T23:59:59", "=2262-04-11T23:47:17", "=2300-06-01T00:00:00", "=1677-09-21T00:12:42"}
	for _, bad := range []string{"garbage", "0", "-1", "now", "Sun", "Sun, 99 Mar 2024 12:00:00 GMT", "Sun, 10 Foo 2024 12:00:00 GMT", "Sun, 10 Mar 2024 25:00:00 GMT", "Sun, 10 Mar 2024 12:61:00 GMT", "Sun, 30 Feb 2024 12:00:00 GMT", "10.03.2024", "воскресенье", "Sun, 10 Mar", "GMT", ", , ::"} {
		fixed = append(fixed, "!"+bad)
	}

	headers := append(append([]string{}, distances...), fixed...)

	for _, zone := range zones {
		zone := zone
		inZone(zone)

		mc.Family(c, "times "+zone, "all local times, sub-second parts and headers, local time "+zone, func(yield func(checking) bool) {
			for _, m := range modified {
				for _, nano := range nanos {
					for _, h := range headers {
						if !yield(checking{Local: "file", Modified: m, Nano: nano, Remote: "ok", Header: h}) {
							return
						}
					}
				}
			}

			if c.Quick() || zone != "Europe/Moscow" {
				return
			}

			// every distance up to two days around changes of the clock
			for _, m := range []string{"2024-03-31T00:59:59", "2024-12-31T23:59:59"} {
				for d := -172800; d <= 172800; d++ {
					if !yield(checking{Local: "file", Modified: m, Nano: 500000000, Remote: "ok", Header: fmt.Sprint(d)}) {
						return
					}
				}
			}
		}, func(x *mc.X, k checking) error {
			if x.Replaying() {
				inZone(zone)
			}

			return k.ask(x)
		})
	}

	inZone("Europe/Moscow")

	mc.Family(c, "answers", "all statuses, failures and redirections with all local states and headers", func(yield func(checking) bool) {
		var remotes []string

		for kind := range remoteErrors {
			remotes = append(remotes, kind)
		}

		remotes = append(mc.Sorted(remotes), statuses()[1:]...)
		remotes = append(remotes, "ok")

		locals := []string{"none", "file"}
		for kind := range localErrors {
			locals = append(locals, kind)
		}

		mc.Sorted(locals[2:])

		for _, local := range locals {
			for _, r := range remotes {
				for _, h := range []string{"none", "86400", "0", "-86400", "!garbage", "=9999-12-31T23:59:59"} {
					for _, hops := range []int{0, 1, 3, 9, 10, 12} {
						codes := []int{301, 302, 303, 307, 308}
						if hops == 0 {
							codes = codes[:1]
						}

						for _, code := range codes {
							if hops > 0 && (r != "ok" && r != "404" && r != "500" && r != "reset") {
								continue
							}

							k := checking{Local: local, Remote: r, Header: h, Hops: hops, HopCode: code}
							if local == "file" {
								k.Modified = "2024-03-10T12:00:00"
							}

							if hops >= 10 && r == "ok" {
								k.Remote = "302" // given up: an error
							}

							if !yield(k) {
								return
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, k checking) error { return k.ask(x) })

	mc.Family(c, "circumstances", "all combinations of what must not matter: protocol, length told, other header fields, size of the local file, other files", func(yield func(checking) bool) {
		others := []string{
			"", "Date: Mon, 02 Jan 2006 15:04:05 GMT", "Date: Fri, 01 Jan 2100 00:00:00 GMT", "Expires: Mon, 02 Jan 2006 15:04:05 GMT",
			"Etag: \"x\"", "Age: 100000", "Content-Type: text/html", "Content-Type: application/x-bzip2", "Content-Encoding: gzip",
			"Accept-Ranges: bytes", "Cache-Control: no-cache", "last-modified: Fri, 01 Jan 2100 00:00:00 GMT",
			"X-Last-Modified: Fri, 01 Jan 2100 00:00:00 GMT", "Retry-After: 10", "Connection: close", "Content-Disposition: attachment",
		}

		for _, local := range []string{"file", "none"} {
			for _, header := range []string{"1", "0", "-1", "none", "!garbage"} {
				for _, proto := range []string{"", "1.0", "2.0"} {
					for _, length := range []int64{0, 1, 2, int64(len(archives[0])) + 1, 1 << 40} {
						for _, other := range others {
							for _, size := range []string{"", "empty", "one", "same", "huge"} {
								for _, beside := range []string{"", "u", "c", "uc", "UC", "U", "C"} {
									k := checking{
										Local: local, Modified: "2024-03-10T12:00:00", Remote: "ok", Header: header, Proto: proto,
										Length: length, Other: other, Size: size, Beside: beside,
									}

									if k.Length > 1<<30 && local == "none" || c.Quick() && length == 2 && size == "one" || local == "none" && size != "" {
										continue
									}

									if !yield(k) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, k checking) error { return k.ask(x) })

	mc.Family(c, "downloads", "all answers to the download request itself", func(yield func([]string) bool) {
		for _, local := range []string{"none", "file"} {
			for _, status := range statuses() {
				if !yield([]string{local, status}) {
					return
				}
			}
		}
	}, func(x *mc.X, s []string) error {
		k := checking{Local: s[0], Modified: "2024-03-10T12:00:00", Remote: "ok", Header: "1"}
		w, plan := k.machine()
		fmt.Sscan(s[1], &w.Ext.(*remote).Get)

		x.Evals(1, 1)

		before, updated := w.Nodes[archiveFile], false
		o := process(w, plan, func(l *opencorpora.Loader) (err error) {
			updated, err = l.DownloadUpdate()
			return err
		})

		if err := judge("the download", o, updated, true, s[1] != "200"); err != nil {
			return err
		}

		switch now := w.Nodes[archiveFile]; {
		case s[1] == "200" && archived(w) != 0:
			return mc.Failf("the file downloaded is not the remote one")
		case s[1] != "200" && (now == nil) != (before == nil), s[1] != "200" && now != nil && (string(now.Data) != string(archives[1]) || !now.MTime.Equal(k.modified())):
			return mc.Failf("failed download changes the file downloaded before")
		}

		return nil
	})

	situations := []checking{
		{Local: "none", Remote: "ok", Header: "0"},
		{Local: "none", Remote: "refused", Header: "0"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "ok", Header: "1"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "ok", Header: "0"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "ok", Header: "none"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "ok", Header: "!garbage"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "reset", Header: "0"},
		{Local: "file", Modified: "2024-03-10T12:00:00", Remote: "404", Header: "86400"},
		{Local: "file", Modified: "2024-03-12T12:00:00", Remote: "ok", Header: "=2024-03-10T12:00:01"},
		{Local: "EACCES", Remote: "ok", Header: "86400"},
	}

	mc.Family(c, "histories", "all sequences of situations asked by one loader", func(yield func([]int) bool) {
		for n := 2; n <= c.Pick(4, 6); n++ {
			stop := false

			mc.Each(len(situations), n, func(list []int) bool {
				stop = !yield(append([]int{}, list...))
				return !stop
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, list []int) error {
		x.Evals(len(list), len(list))

		var problem error

		w := newWorld()
		current := situations[0]
		o := process(w, func(op world.Op) *world.Fault { return current.plan()(op) }, func(l *opencorpora.Loader) error {
			for n, i := range list {
				current = situations[i]
				current.set(w)

				required, fails := current.required()
				answer, err := l.IsUpdateRequired()

				if problem = judge(fmt.Sprintf("check %d of %v", n+1, list), outcome{err: err}, answer, required, fails); problem != nil {
					return nil
				}
			}

			return nil
		})

		if o.panic != "" {
			return mc.Failf("checks %v panic: %s", list, o.panic)
		}

		return problem
	})

	checkPresence(c)
}

// presence is what is there: none, a kind of file, or an error of everything done with the file.
type presence struct {
	Archive  string `json:"archive"`
	Unpacked string `json:"unpacked"`
	Beside   string `json:"beside,omitempty"`
}

var fileKinds = map[string]string{"empty": "", "one": "x", "long": strings.Repeat("<dictionary/>", 1000)}

func (p presence) set(w *world.World) {
	for name, kind := range map[string]string{archiveFile: p.Archive, unpackedFile: p.Unpacked} {
		delete(w.Nodes, name)

		content, isFile := fileKinds[kind]
		mtime := w.Clock

		if kind == "old" || kind == "ahead" {
			content, isFile, mtime = "<dictionary/>", true, time.Date(map[string]int{"old": 1960, "ahead": 2200}[kind], 1, 1, 0, 0, 0, 0, time.UTC)
		}

		if isFile || kind != "none" {
			w.SetFile(name, []byte(content), mtime)
		}
	}

	delete(w.Nodes, compiledFile)

	for _, suffix := range []string{".0.part", ".1.part", ".bak"} {
		delete(w.Nodes, archiveFile+suffix)
		delete(w.Nodes, unpackedFile+suffix)

		if p.Beside == "parts" {
			w.SetFile(archiveFile+suffix, []byte("x"), w.Clock)
			w.SetFile(unpackedFile+suffix, []byte("x"), w.Clock)
		}
	}

	if p.Beside == "compiled" {
		w.SetFile(compiledFile, []byte("x"), w.Clock)
	}
}

func (p presence) plan(op world.Op) *world.Fault {
	for name, kind := range map[string]string{archiveFile: p.Archive, unpackedFile: p.Unpacked} {
		if err := localErrors[kind]; err != nil && op.Path == name {
			return &world.Fault{Err: err}
		}
	}

	return nil
}

func there(kind string) bool { return kind != "none" && localErrors[kind] == nil }

func (p presence) judge(l *opencorpora.Loader) error {
	if answer := l.IsDownloadExists(); answer != there(p.Archive) {
		return mc.Failf("downloaded file exists: %v (it is: %s, the unpacked one: %s)", answer, p.Archive, p.Unpacked)
	}

	if answer := l.IsUnpackedExists(); answer != there(p.Unpacked) {
		return mc.Failf("unpacked file exists: %v (it is: %s, the downloaded one: %s)", answer, p.Unpacked, p.Archive)
	}

	return nil
}

func checkPresence(c *mc.C) {
	kinds := []string{"none", "empty", "one", "long", "old", "ahead"}
	for kind := range localErrors {
		kinds = append(kinds, kind)
	}

	mc.Sorted(kinds[6:])

	var all []presence

	for _, a := range kinds {
		for _, u := range kinds {
			for _, beside := range []string{"", "parts", "compiled"} {
				all = append(all, presence{a, u, beside})
			}
		}
	}

	mc.Family(c, "presence", "all pairs of states of the downloaded and the unpacked file with others beside them, each followed by each of them for the same loader", func(yield func(presence) bool) {
		for _, p := range all {
			if !yield(p) {
				return
			}
		}
	}, func(x *mc.X, p presence) error {
		var problem error

		for i := -1; i < len(all); i++ {
			w := newWorld()
			current := p
			current.set(w)

			before := w.Dump()

			x.Evals(2, 2)

			o := process(w, func(op world.Op) *world.Fault { return current.plan(op) }, func(l *opencorpora.Loader) error {
				problem = current.judge(l)

				if now := w.Dump(); problem == nil && now != before {
					problem = mc.Failf("asking for files changes files:\n%s\nbefore:\n%s", now, before)
				}

				if i >= 0 && problem == nil {
					current = all[i]
					current.set(w)

					if problem = current.judge(l); problem != nil {
						problem = mc.Failf("after %v: %v", p, problem)
					}
				}

				return nil
			})

			switch {
			case problem != nil:
				return problem
			case o.panic != "":
				return mc.Failf("asking for files panics: %s", o.panic)
			case len(w.Ext.(*remote).Requests) != 0:
				return mc.Failf("asking for files makes requests %v", w.Ext.(*remote).Requests)
			}

			x.Outcome(fmt.Sprint(current))
		}

		return nil
	})
}
