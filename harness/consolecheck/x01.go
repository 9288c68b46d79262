//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
)

// Keys of known findings (KNOWN_FINDINGS.txt).
const (
	keyNegative = "negative-id-crash"
	keyLastNode = "last-node-refused"
	keyWrapped  = "set-id-wrapped"
)

// expectation compares a reply; end tells that the console must end instead of answering.
type expectation struct {
	check func(b *built, r reply) error
	end   bool
	again bool   // loads the index again
	known string // the key a failure of this line is known under
}

var (
	found    = regexp.MustCompile(`^< (\d+): (.*), eta [^,]*$`)
	nothing  = regexp.MustCompile(`^< .*, eta [^,]*$`)
	lastInt  = regexp.MustCompile(`(-?\d+)\D*$`)
	tagLine  = regexp.MustCompile(`\[([^\]]*)\] ?(.*)\((.*)\)$`)
	tableLen = regexp.MustCompile(`(\d+)\((\d+)\)`)
	setList  = regexp.MustCompile(`TS\(([\d,]*)\)`)
)

// fails expects an error message and no data.
func fails(b *built, r reply) error {
	if len(r.errors) == 0 {
		return mc.Failf("no error reported")
	}

	if text := strings.TrimSpace(r.text); text != "" {
		return mc.Failf("printed %q", text)
	}

	return nil
}

func unfailed(check func(b *built, r reply) error) func(b *built, r reply) error {
	return func(b *built, r reply) error {
		if len(r.errors) > 0 {
			return mc.Failf("error reported: %v", r.errors)
		}

		return check(b, r)
	}
}

// expect is the reference of the console.
func expect(b *built, line string) expectation {
	items := strings.Split(line, " ")

	switch items[0] {
	case "tag", "t":
		return expectTag(b, items)
	case "set", "s":
		return expectSet(b, items)
	case "var", "v":
		return expectVar(b, items)
	case "node", "n":
		return expectNode(b, items)
	case "reload", "r":
		return expectation{check: unfailed(func(*built, reply) error { return nil }), again: true}
	case "exit", "e":
		return expectation{end: true}
	default:
		return expectation{check: unfailed(func(b *built, r reply) error { return sameSets(b, r, line) })}
	}
}

// number tells what an argument means if it is a number.
func number(arg string, base int) (value int64, ok, huge bool) {
	value, err := strconv.ParseInt(arg, base, 64)
	if errors.Is(err, strconv.ErrRange) {
		return 0, true, true
	}

	return value, err == nil, false
}

func failing(known string) expectation { return expectation{check: fails, known: known} }

func when(condition bool, key string) string {
	if condition {
		return key
	}

	return ""
}

// loose expects an answer of any kind: lines with more arguments than a command takes.
func loose() expectation { return expectation{check: func(*built, reply) error { return nil }} }

// sameSets compares what was printed for a word.
func sameSets(b *built, r reply, text string) error {
	got, printed, answered := map[string]bool{}, 0, false

	for _, message := range r.logged {
		switch m := found.FindStringSubmatch(message); {
		case m != nil:
			got[canon(strings.Split(m[2], ","))] = true
			printed++
		case nothing.MatchString(message):
			answered = true
		}
	}

	want := b.sets[text]
	if err := compare(got, printed, want); err != nil {
		return mc.Failf("word %q: %v", text, err)
	}

	if len(want) == 0 && !answered {
		return mc.Failf("word %q: no answer", text)
	}

	return nil
}

func keys(m map[string]bool) string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, "("+k+")")
	}

	sort.Strings(res)

	return strings.Join(res, " ")
}

func compare(got map[string]bool, printed int, want map[string]bool) error {
	if printed != len(want) || keys(got) != keys(want) {
		return mc.Failf("%d tag sets printed: %s, expected %s", printed, keys(got), keys(want))
	}

	return nil
}

func expectCount(what string, want int) func(b *built, r reply) error {
	return unfailed(func(b *built, r reply) error {
		for _, message := range r.logged {
			if m := lastInt.FindStringSubmatch(message); m != nil && m[1] == strconv.Itoa(want) {
				return nil
			}
		}

		return mc.Failf("%d %s expected, messages: %v", want, what, r.logged)
	})
}

func expectTag(b *built, items []string) expectation {
	switch {
	case len(items) < 2:
		return failing("")
	case len(items) > 2:
		return loose()
	case items[1] == "count":
		return expectation{check: expectCount("tags", len(b.dict.Tags))}
	}

	id := -1

	if value, ok, huge := number(items[1], 10); ok {
		if huge || value < 0 || value >= int64(len(b.dict.Tags)) {
			return failing(when(value < 0, keyNegative))
		}

		id = int(value)
	} else {
		for i, tag := range b.dict.Tags {
			if tag[0] == items[1] {
				id = i
			}
		}

		for i, tag := range b.dict.Tags {
			if id < 0 && strings.EqualFold(tag[0], items[1]) {
				id = i
			}
		}
	}

	if id < 0 {
		return failing("")
	}

	return expectation{check: unfailed(func(b *built, r reply) error {
		for _, message := range r.logged {
			m := tagLine.FindStringSubmatch(message)
			if m == nil {
				continue
			}

			if number, _ := strconv.Atoi(m[1]); number == id && m[2] == b.dict.Tags[id][0] && strings.Trim(m[3], "- ") == strings.TrimSpace(b.dict.Tags[id][1]) {
				return nil
			}
		}

		return mc.Failf("tag %d %v expected, messages: %v", id, b.dict.Tags[id], r.logged)
	})}
}

func expectSet(b *built, items []string) expectation {
	switch {
	case len(items) < 2:
		return failing("")
	case items[1] == "tables":
		return expectation{check: unfailed(checkTables)}
	case items[1] == "table" && len(items) != 3:
		return failing("")
	case items[1] == "table":
		value, ok, huge := number(items[2], 10)
		if !ok || huge || value < 0 || value >= int64(len(b.tables)) {
			return failing(when(ok && value < 0, keyNegative))
		}

		return expectation{check: unfailed(func(b *built, r reply) error { return checkTable(b, r, uint32(value)) })}
	case len(items) > 2:
		return loose()
	}

	value, ok, huge := number(items[1], 0)
	if !ok || huge {
		return failing("")
	}

	if _, known := b.setsByID[uint32(value)]; !known || value < 0 || value > math.MaxUint32 {
		return failing(when(value < 0 || value > math.MaxUint32, keyWrapped))
	}

	return expectation{check: unfailed(func(b *built, r reply) error {
		at := strings.LastIndex(r.text, ": ")
		if at < 0 {
			return mc.Failf("no tag set printed: %q", r.text)
		}

		got, want := strings.TrimRight(r.text[at+2:], "\n"), strings.Join(b.setsByID[uint32(value)], ", ")
		if got != want {
			return mc.Failf("tag set %q printed, expected %q", got, want)
		}

		return nil
	})}
}

func checkTables(b *built, r reply) error {
	if err := expectCount("tables", len(b.tables))(b, r); err != nil {
		return err
	}

	for _, message := range r.logged {
		m := tableLen.FindAllStringSubmatch(message, -1)
		if len(m) != len(b.tables) {
			continue
		}

		for i, size := range b.tables {
			number, _ := strconv.Atoi(m[i][1])
			length, _ := strconv.Atoi(m[i][2])

			if number != i || length != size {
				return mc.Failf("table %d has %d tag sets: %v", i, size, message)
			}
		}

		return nil
	}

	return mc.Failf("tables %v expected, messages: %v", b.tables, r.logged)
}

func checkTable(b *built, r reply, table uint32) error {
	text := strings.Join(r.logged, "\n")
	got := setList.FindAllStringSubmatch(text, -1)

	if len(got) != b.tables[table] {
		return mc.Failf("%d sets printed of %d: %s", len(got), b.tables[table], text)
	}

	for sub, m := range got {
		var names []string

		for _, s := range strings.Split(m[1], ",") {
			id, err := strconv.Atoi(s)
			if err != nil || id >= len(b.dict.Tags) {
				return mc.Failf("no such tag: %q", s)
			}

			names = append(names, b.dict.Tags[id][0])
		}

		if want := b.setsByID[table<<16|uint32(sub)]; strings.Join(names, " ") != strings.Join(want, " ") {
			return mc.Failf("set %d of table %d is %v, expected %v", sub, table, names, want)
		}
	}

	return nil
}

// lists parses tag sets printed one on a line after a dash; names are what follows the prefix matched.
func lists(text string, form *regexp.Regexp) (sets map[string]bool, count int) {
	sets = map[string]bool{}

	for _, line := range strings.Split(text, "\n") {
		if m := form.FindStringSubmatch(line); m != nil {
			names := strings.Split(m[1], ",")
			for i := range names {
				names[i] = strings.TrimSpace(names[i])
			}

			sets[canon(names)] = true
			count++
		}
	}

	return sets, count
}

var (
	variantLine = regexp.MustCompile(`^- \d+: \d+: TS\d+: (.*)$`)
	nodeSetLine = regexp.MustCompile(`^- \d+: \((.*)\)$`)
	childLine   = regexp.MustCompile(`(?s)^- (.+)\[(\d+)\]: (\d+)$`)
)

func expectVar(b *built, items []string) expectation {
	switch {
	case len(items) < 2:
		return failing("")
	case len(items) > 2:
		return loose()
	}

	value, err := strconv.ParseUint(items[1], 0, 64)
	want, known := b.variants[uint32(value)]

	if value == 0 && err == nil { // no data: an error or an empty list
		return expectation{check: func(b *built, r reply) error {
			if _, count := lists(r.text, variantLine); count != 0 {
				return mc.Failf("printed %q", r.text)
			}

			return nil
		}}
	}

	if err != nil || value > math.MaxUint32 || !known {
		return failing("")
	}

	return expectation{check: unfailed(func(b *built, r reply) error {
		got, count := lists(r.text, variantLine)
		return compare(got, count, want)
	})}
}

func expectNode(b *built, items []string) expectation {
	switch {
	case len(items) < 2:
		return failing("")
	case items[1] == "count":
		return expectation{check: expectCount("nodes", len(b.prefixes))}
	case len(items) > 2:
		return loose()
	}

	if value, ok, huge := number(items[1], 10); ok {
		if huge || value < 0 || value >= int64(len(b.nodes)) {
			return failing(when(value < 0, keyNegative))
		}

		return expectation{
			check: unfailed(func(b *built, r reply) error { return checkNode(b, r, uint32(value)) }),
			known: when(value == int64(len(b.nodes)-1), keyLastNode),
		}
	}

	id, known := b.ids[items[1]]
	if items[1] == "" {
		return loose() // the empty string is the root, or no word
	}

	if !known {
		return failing("")
	}

	return expectation{check: unfailed(func(b *built, r reply) error { return checkNode(b, r, id) })}
}

func checkNode(b *built, r reply, id uint32) error {
	text := r.text
	prefix := b.nodes[id]
	parent := uint32(0)

	if runes := []rune(prefix); len(runes) > 0 {
		parent = b.ids[string(runes[:len(runes)-1])]
	}

	for _, want := range []string{
		fmt.Sprintf("Node: %d\n", id), fmt.Sprintf("Prefix: %s\n", prefix), fmt.Sprintf("Parent: %d\n", parent),
	} {
		squeezed := regexp.MustCompile(`: +`).ReplaceAllString("\n"+text, ": ")
		if prefix == "" && strings.HasPrefix(want, "Prefix") {
			want = strings.TrimSpace(want)
		}

		if !strings.Contains(squeezed, "\n"+want) {
			return mc.Failf("node %d: %q expected in %q", id, want, squeezed)
		}
	}

	// a set printed on the line naming the count comes first in some of the lines
	got, count := lists(text, nodeSetLine)
	if err := compare(got, count, b.sets[prefix]); err != nil {
		return mc.Failf("node %d: %v", id, err)
	}

	children := 0
	rest := text[strings.Index(text, "Children:")+1:]

	for _, part := range strings.Split(rest, "\n- ") {
		m := childLine.FindStringSubmatch("- " + strings.TrimRight(part, "\n"))
		if m == nil {
			continue
		}

		letter, _ := strconv.Atoi(m[2])
		child, _ := strconv.Atoi(m[3])

		if string(rune(letter)) != m[1] || !b.children[prefix][rune(letter)] || b.ids[prefix+m[1]] != uint32(child) {
			return mc.Failf("node %d has no child %q", id, m[0])
		}

		children++
	}

	if children != len(b.children[prefix]) {
		return mc.Failf("node %d: %d children printed of %d: %q", id, children, len(b.children[prefix]), text)
	}

	return nil
}

// verify compares a whole session. Consoles ended by a known finding are started again with the lines not yet processed.
func verify(x *mc.X, dir string, b *built, lines []string) error {
	if err := place(dir, b); err != nil {
		return err
	}

	var finding error

	for len(lines) > 0 {
		replies, code, err := talk(dir, []byte(strings.Join(lines, "\n")+"\n"))
		if err != nil {
			return err
		}

		done := 0

		for i, line := range lines {
			e := expect(b, line)

			violation := func(format string, args ...any) error {
				return &mc.Violation{
					Replay: session{Dict: b.dict, Lines: lines[:i+1]}, Key: e.known,
					Msg: fmt.Sprintf("line %q (%d): %s", line, i+1, fmt.Sprintf(format, args...)),
				}
			}

			done++
			x.Trans(1)

			var failure error

			switch {
			case i >= len(replies):
				failure = violation("the console did not wait for it")
			case e.end:
				if len(replies) != i+1 || code != 0 {
					return violation("did not end the console well, exit code %d", code)
				}
			case i+1 >= len(replies):
				failure = violation("ended the console with exit code %d", code)
			default:
				if err := e.check(b, replies[i]); err != nil {
					failure = violation("%v", err)
				}
			}

			if failure != nil && e.known == "" {
				return failure
			}

			if failure != nil && finding == nil {
				finding = failure
			}

			if e.end || i+1 >= len(replies) {
				break
			}
		}

		if done == len(lines) && len(replies) > done && code != 0 {
			return &mc.Violation{
				Replay: session{Dict: b.dict, Lines: lines}, Msg: fmt.Sprintf("end of input: exit code %d", code),
			}
		}

		lines = lines[done:]
	}

	return finding
}

type session struct {
	Dict  dict     `json:"dict"`
	Lines []string `json:"lines,omitempty"`
}
