//go:build go1.22

package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
)

func tagNames(n int) (tags [][2]string) {
	for i := 0; i < n; i++ {
		parent := "    "
		if i > 0 {
			parent = tags[(i-1)/2][0]
		}

		tags = append(tags, [2]string{fmt.Sprintf("T%c%c%c", 'A'+i/100, 'A'+i/10%10, 'A'+i%10), parent})
	}

	return tags
}

func shape(tags [][2]string, sets [][]int) [][]string {
	var res [][]string

	for _, set := range sets {
		names := make([]string, len(set))
		for i, id := range set {
			names[i] = tags[id][0]
		}

		res = append(res, names)
	}

	return res
}

// standard dictionaries of the families of lines.
func standard() []dict {
	tags := tagNames(4)

	return []dict{
		{},
		{Tags: tags, Words: []word{
			{"а", shape(tags, [][]int{{0}})},
			{"ад", shape(tags, [][]int{{0, 1}, {2}})},
			{"б", nil},
			{"бы", shape(tags, [][]int{{0, 1, 2}})},
			{"tag", shape(tags, [][]int{{3}})},
			{"я", shape(tags, [][]int{{0}, {1}, {2}, {3}})},
		}},
		{Tags: tags[:1], Words: []word{{"а б", shape(tags, [][]int{{0}})}, {"1", shape(tags, [][]int{{0}})}}},
	}
}

// spellings of numbers around the limits of a range.
func spellings(limit int, negative bool) (res []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if value, ok, _ := number(s, 10); ok && value < 0 && !negative {
			return // these end the console, see known findings
		}

		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}

	for v := -2; v < limit+3; v++ {
		add(strconv.Itoa(v))

		if v >= 0 {
			add("0x" + strconv.FormatInt(int64(v), 16))
			add("0X" + strings.ToUpper(strconv.FormatInt(int64(v), 16)))
			add("0" + strconv.FormatInt(int64(v), 8))
			add("0b" + strconv.FormatInt(int64(v), 2))
			add("+" + strconv.Itoa(v))
			add("00" + strconv.Itoa(v))
		}
	}

	for shift := 7; shift <= 64; shift++ {
		if shift < 63 {
			for d := -1; d <= 1; d++ {
				v := int64(1)<<shift + int64(d)
				add(strconv.FormatInt(v, 10))
				add(strconv.FormatInt(-v, 10))
				add("0x" + strconv.FormatInt(v, 16))
			}
		}
	}

	for _, s := range []string{
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
		"18446744073709551616", "99999999999999999999999999", "0xffffffffffffffff", "0x1ffffffffffffffff", "1_0", "1.0", "1e1",
		"0x", "-", "+", "-0", "--1", "١", "1а", "а1", "0o1", "０",
	} {
		add(s)
	}

	return res
}

var commands = []string{"tag", "t", "set", "s", "var", "v", "node", "n", "set table", "s table"}

// idLines are all id commands with all spellings of ids around ranges of an index.
func idLines(b *built, everything bool) (res []string) {
	for _, command := range commands {
		limit := 0

		switch command[0] {
		case 't':
			limit = len(b.dict.Tags)
		case 'n':
			limit = len(b.nodes)
		case 's':
			limit = len(b.tables)
		}

		if everything || limit < 40 {
			for _, s := range spellings(limit, false) {
				res = append(res, command+" "+s)
			}

			continue
		}

		for v := 0; v < limit+2; v++ {
			res = append(res, command+" "+strconv.Itoa(v))
		}
	}

	// identifiers in two halves
	for table := 0; table <= len(b.tables)+1; table++ {
		size := 0
		if table < len(b.tables) {
			size = b.tables[table]
		}

		for sub := 0; sub < size+2; sub++ {
			res = append(res, fmt.Sprintf("set %d", table<<16|sub), fmt.Sprintf("s 0x%x", table<<16|sub))
		}

		res = append(res, fmt.Sprintf("set %d", table<<16|0xffff))
	}

	most := 0
	count := map[uint32]int{}

	for id := range b.variants {
		count[id>>16]++

		if table := int(id >> 16); table > most {
			most = table
		}
	}

	for table := 0; table <= most+2; table++ {
		for sub := 0; sub < count[uint32(table)]+3; sub++ {
			res = append(res, fmt.Sprintf("var %d", table<<16|sub), fmt.Sprintf("v 0x%X", table<<16|sub))
		}

		res = append(res, fmt.Sprintf("var %d", table<<16|0xffff))
	}

	return res
}

// wordLines look up all strings of an index and their neighbours.
func wordLines(b *built, most int) (res []string) {
	seen := map[string]bool{}

	for id := 1; id < len(b.nodes); id++ {
		if id > most && id < len(b.nodes)-most {
			continue
		}

		p := b.nodes[id]
		for _, text := range []string{p, p + "z", "z" + p, p + " ", " " + p, strings.ToUpper(p)} {
			if !seen[text] {
				seen[text] = true
				res = append(res, text)

				if !strings.Contains(text, " ") {
					res = append(res, "node "+text, "n "+text)
				}
			}
		}
	}

	for _, tag := range b.dict.Tags {
		res = append(res, "tag "+tag[0], "t "+strings.ToLower(tag[0]), "tag "+tag[0]+"z", "tag "+tag[0][:3])
	}

	return append(res, "tag count", "t count", "node count", "n count", "set tables", "s tables", "", " ", "zz", "node zz", "tag zz")
}

func checkConsole(c *mc.C) {
	c.Rule("every line gets the answer a reference of the console gives for the dictionary, or an error and no data if there is none; only exit and the end of input end the console, with code 0")
	c.Assume("the line editor (chzyer/readline) is replaced by plain reading of lines; libxml and logging by stand-ins")
	c.Assume("tag names are ASCII and differ without regard to case; lines with more arguments than a command takes need any answer")
	c.Assume("a compiled index is in place whenever one is loaded")

	knownFindings(c)
	smallDictionaries(c)
	sizes(c)
	lines(c)
	sequences(c)
	replacing(c)
	ending(c)
}

func knownFindings(c *mc.C) {
	mc.Family(c, "negative", "single lines with numbers out of every range", func(yield func(session) bool) {
		for _, d := range standard() {
			for _, command := range commands {
				for _, s := range spellings(10, true) {
					if value, ok, _ := number(s, 0); ok && (value < 0 || value > 9) {
						yield(session{d, []string{command + " " + s, "tag count", ""}})
					}
				}
			}
		}

		yield(session{standard()[1], []string{"node 9"}})
	}, runSession)
}

func runSession(x *mc.X, s session) error {
	b, err := build(s.Dict)
	if err != nil {
		return err
	}

	dir, done := scratch()
	defer done()

	x.Evals(len(s.Lines), len(s.Lines))
	x.Trace(1)
	x.State(fmt.Sprint(s.Dict))

	return verify(x, dir, b, s.Lines)
}

// all runs everything that can be asked of a dictionary.
func all(x *mc.X, d dict, everything bool, most int) error {
	b, err := build(d)
	if err != nil {
		return err
	}

	s := session{Dict: d, Lines: append(wordLines(b, most), idLines(b, everything)...)}
	x.Outcome(strconv.Itoa(len(s.Lines)))

	return runSession(x, s)
}

func smallDictionaries(c *mc.C) {
	texts := []string{"а", "аб", "b"}
	tags := tagNames(2)
	choices := [][][]int{nil, {{0}}, {{1}}, {{0, 1}}, {{0}, {1}}, {{1}, {0}}, {{0}, {0, 1}}, {{0, 1}, {1}}, {{0}, {1}, {0, 1}}, {{1, 0}}}

	if c.Quick() {
		choices = choices[:7]
	}

	mc.Family(c, "dictionaries", fmt.Sprintf("all dictionaries of %d strings, each absent or with one of %d lists of tag sets, everything asked", len(texts), len(choices)), func(yield func(dict) bool) {
		mc.Each(len(choices)+1, len(texts), func(w []int) bool {
			d := dict{Tags: tags}

			for i, choice := range w {
				if choice > 0 {
					d.Words = append(d.Words, word{texts[i], shape(tags, choices[choice-1])})
				}
			}

			return yield(d)
		})
	}, func(x *mc.X, d dict) error { return all(x, d, true, 100) })
}

type size struct {
	Tags, Words, Sets, Length int
}

// of makes a dictionary of words with distinct lists of tag sets.
func (s size) of() dict {
	tags := tagNames(s.Tags)
	d := dict{Tags: tags}
	next := 0

	for i := 0; i < s.Words; i++ {
		var sets [][]int

		for k := 0; k < s.Sets; k++ {
			var set []int

			for t := 0; t < s.Length; t++ {
				set = append(set, (next+t*(1+next/s.Tags))%s.Tags)
			}

			if distinct(set) {
				sets = append(sets, set)
			}

			next++
		}

		text := ""
		for v := i + 1; v > 0; v /= 7 {
			text += string(rune('а' + v%7))
		}

		d.Words = append(d.Words, word{text, shape(tags, sets)})
	}

	return d
}

func distinct(set []int) bool {
	seen := map[int]bool{}
	for _, v := range set {
		if seen[v] {
			return false
		}

		seen[v] = true
	}

	return true
}

func sizes(c *mc.C) {
	mc.Family(c, "sizes", "every number of tags, words, tag sets of a word and tags of a set up to a limit, everything asked", func(yield func(size) bool) {
		step := c.Pick(5, 1)
		for n := 1; n <= 255; n += step {
			yield(size{Tags: n, Words: 2, Sets: 1, Length: 1})
		}

		for n := 0; n <= c.Pick(300, 1500); n += c.Pick(13, 1) {
			yield(size{Tags: 12, Words: n, Sets: 2, Length: 2})
		}

		for n := 0; n <= c.Pick(60, 250); n += c.Pick(3, 1) {
			yield(size{Tags: 251, Words: 2, Sets: n, Length: 1})
		}

		for n := 1; n <= 64; n += c.Pick(3, 1) {
			yield(size{Tags: 101, Words: 3, Sets: 3, Length: n})
		}
	}, func(x *mc.X, s size) error { return all(x, s.of(), false, 50) })
}

var tokens = []string{
	"tag", "t", "set", "s", "var", "v", "node", "n", "reload", "count", "table", "tables", "info", "id", "", "0", "1", "2", "3", "7", "8", "10",
	"65536", "0x10000", "0x20000", "131072", "-0", "TAAA", "taab", "а", "ад", "бы", "я", "б", "TAG", "Set", "выход", "\t", "'", "%s", "%d",
}

func lines(c *mc.C) {
	for i, d := range standard() {
		d := d
		b, err := build(d)

		if err != nil {
			c.Extra("lines", err.Error())
		}

		mc.Family(c, fmt.Sprintf("lines.%d", i), fmt.Sprintf("all lines of up to %d words out of %d", c.Pick(3, 4), len(tokens)), func(yield func([]string) bool) {
			yield([]string{""})

			for _, first := range tokens {
				yield([]string{first})

				for _, second := range tokens {
					if !yield([]string{first, second}) {
						return
					}
				}
			}
		}, func(x *mc.X, start []string) error {
			if err != nil {
				return err
			}

			text := strings.Join(start, " ")
			s := session{Dict: d, Lines: []string{text}}

			if len(start) == 2 {
				for n := 3; n <= c.Pick(3, 4); n++ {
					mc.Each(len(tokens), n-2, func(rest []int) bool {
						line := text
						for _, t := range rest {
							line += " " + tokens[t]
						}

						s.Lines = append(s.Lines, line)

						return true
					})
				}
			}

			dir, done := scratch()
			defer done()

			x.Evals(len(s.Lines), len(s.Lines))
			x.Trace(1)

			return verify(x, dir, b, s.Lines)
		})
	}

	// every character, in words and as arguments
	mc.Family(c, "characters", "every character of the basic plane looked up, as a word and as an argument of every command", func(yield func(int) bool) {
		for from := 1; from < c.Pick(0x800, 0x20000); from += 0x80 {
			if from < 0xd800-0x80 || from > 0xdfff {
				yield(from)
			}
		}
	}, func(x *mc.X, from int) error {
		d := standard()[1]
		s := session{Dict: d}

		for r := from; r < from+0x80; r++ {
			if r == '\n' {
				continue
			}

			ch := string(rune(r))
			d.Words = append(d.Words, word{ch, [][]string{{d.Tags[r%4][0]}}}, word{"x" + ch, [][]string{{d.Tags[(r+1)%4][0]}}})

			s.Lines = append(s.Lines, "x"+ch)

			for _, command := range commands {
				s.Lines = append(s.Lines, command+" "+ch)
			}

			switch ch {
			case "t", "s", "v", "n", "r", "e": // commands
			default:
				s.Lines = append(s.Lines, ch)
			}
		}

		s.Dict = merge(d)

		return runSession(x, s)
	})
}

// merge joins entries of equal words.
func merge(d dict) dict {
	at := map[string]int{}
	res := dict{Tags: d.Tags}

	for _, w := range d.Words {
		if i, ok := at[w.Text]; ok {
			res.Words[i].Sets = append(append([][]string{}, res.Words[i].Sets...), w.Sets...)
			continue
		}

		at[w.Text] = len(res.Words)
		res.Words = append(res.Words, w)
	}

	return res
}

// sequences: answers do not depend on what was asked before.
func sequences(c *mc.C) {
	ops := []string{
		"ад", "я", "zz", "", "tag 0", "tag taab", "tag count", "tag 4", "set tables", "set table 0", "set 0x10000", "set 9", "var 131072",
		"var 0x10000", "var 77", "node 2", "node count", "node ад", "node zz", "reload", "node", "set table 7",
	}
	depth := c.Pick(3, 4)

	mc.Family(c, "sequences", fmt.Sprintf("all sequences of %d commands out of %d", depth, len(ops)), func(yield func([]int) bool) {
		mc.Each(len(ops), 2, func(w []int) bool { return yield(append([]int{}, w...)) })
	}, func(x *mc.X, start []int) error {
		b, err := build(standard()[1])
		if err != nil {
			return err
		}

		dir, done := scratch()
		defer done()

		s := session{Dict: b.dict}

		mc.Each(len(ops), depth-2, func(rest []int) bool {
			for _, op := range append(append([]int{}, start...), rest...) {
				s.Lines = append(s.Lines, ops[op])
			}

			return true
		})

		x.Evals(len(s.Lines), len(s.Lines))
		x.Trace(1)

		return verify(x, dir, b, s.Lines)
	})
}

// swap replaces the index file while a console runs.
type swap struct {
	Ops []int `json:"ops"`
}

// replacing: the console answers from the index last loaded, whatever is in place.
func replacing(c *mc.C) {
	dicts := standard()
	ops := []string{"replace by 0", "replace by 1", "replace by 2", "reload", "r", "ад", "node а", "tag count", "set tables", "а б"}
	depth := c.Pick(3, 5)

	mc.Family(c, "replacing", fmt.Sprintf("all sequences of up to %d operations out of %d: replacing the index, loading it again, questions", depth, len(ops)), func(yield func(swap) bool) {
		for n := 1; n <= depth; n++ {
			mc.Each(len(ops), n, func(w []int) bool { return yield(swap{append([]int{}, w...)}) })
		}
	}, func(x *mc.X, s swap) error {
		var all []*built

		for _, d := range dicts {
			b, err := build(d)
			if err != nil {
				return err
			}

			all = append(all, b)
		}

		dir, done := scratch()
		defer done()

		if err := place(dir, all[1]); err != nil {
			return err
		}

		loaded, placed := 1, 1

		t, err := begin(dir)
		if err != nil {
			return err
		}

		defer t.stop()
		x.Trace(1)

		for i, op := range s.Ops {
			x.Trans(1)
			x.Evals(1, 1)

			if op < len(dicts) {
				placed = op

				if err := place(dir, all[placed]); err != nil {
					return err
				}

				continue
			}

			r, err := t.ask(ops[op])
			if err != nil {
				return mc.Failf("%q (operation %d): %v", ops[op], i+1, err)
			}

			e := expect(all[loaded], ops[op])
			if e.again {
				loaded = placed
			}

			x.State(fmt.Sprint("replacing", loaded, placed))

			if err := e.check(all[loaded], r); err != nil {
				return mc.Failf("%q (operation %d) with index %d loaded, %d in place: %v", ops[op], i+1, loaded, placed, err)
			}
		}

		return nil
	})
}

// dialogue is a running console.
type dialogue struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.Reader
}

func begin(dir string) (*dialogue, error) {
	t := &dialogue{cmd: exec.Command(os.Getenv("VERIF_CONSOLE"))}
	t.cmd.Dir = dir
	t.cmd.Env = append(os.Environ(), "VERIF_LOG=1", "GOMAXPROCS=1")

	var err error

	if t.in, err = t.cmd.StdinPipe(); err != nil {
		return nil, err
	}

	if t.out, err = t.cmd.StdoutPipe(); err != nil {
		return nil, err
	}

	if err = t.cmd.Start(); err != nil {
		return nil, err
	}

	_, err = t.read()

	return t, err
}

func (t *dialogue) stop() {
	_ = t.in.Close()
	_ = t.cmd.Process.Kill()
	_ = t.cmd.Wait()
}

func (t *dialogue) read() (r reply, err error) {
	var text []byte

	buffer := make([]byte, 4096)

	for {
		n, err := t.out.Read(buffer)
		text = append(text, buffer[:n]...)

		if n > 0 && text[len(text)-1] == 0 {
			return parse(string(text[:len(text)-1])), nil
		}

		if err != nil {
			return r, mc.Failf("the console ended: %q", text)
		}
	}
}

func (t *dialogue) ask(line string) (reply, error) {
	if _, err := io.WriteString(t.in, line+"\n"); err != nil {
		return reply{}, err
	}

	return t.read()
}

// ending: exit and the end of input.
func ending(c *mc.C) {
	before := []string{"", "ад", "tag 0", "tag 9", "node zz", "reload", "set", "var x"}
	exits := []string{"exit", "e", "exit now", "e 1", "exit ", "Exit", " exit", "exit\t", "eexit", "exi", "", "я", "tag 1"}

	mc.Family(c, "ending", "all pairs of a line before and a line which ends the console or does not, more lines following, the last one with and without an end of line", func(yield func([3]int) bool) {
		for i := range before {
			for j := range exits {
				for k := 0; k < 2; k++ {
					if !yield([3]int{i, j, k}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, w [3]int) error {
		b, err := build(standard()[1])
		if err != nil {
			return err
		}

		x.Evals(1, 1)
		x.Trace(1)

		dir, done := scratch()
		defer done()

		lines := []string{before[w[0]], exits[w[1]], "ад", "tag 2"}
		if err := verify(x, dir, b, lines); err != nil {
			return err
		}

		if w[2] == 0 {
			return nil
		}

		// the last line is not finished
		replies, code, err := talk(dir, []byte("ад\n"+exits[w[1]]))
		if err != nil {
			return err
		}

		if code != 0 {
			return mc.Failf("%q without an end of line: exit code %d", exits[w[1]], code)
		}

		if e := expect(b, exits[w[1]]); exits[w[1]] != "" && !e.end {
			if len(replies) != 3 {
				return mc.Failf("%q without an end of line: %d answers", exits[w[1]], len(replies))
			}

			return e.check(b, replies[1])
		}

		return nil
	})
}
