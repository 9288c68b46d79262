//go:build go1.22

// Package main checks the inspection console (cmd/opencorpora_test) from outside: X01. The console is built from the
// current sources, with the line editor replaced by plain reading of lines (stubs/readline), and run as a process.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	mc.Main(map[string]func(c *mc.C){"X01": checkConsole}, map[string]string{"X01": "model_checking"})
}

// word is a string of the index with the tag sets attributed to it, in this order.
type word struct {
	Text string     `json:"text"`
	Sets [][]string `json:"sets,omitempty"`
}

// dict is what an index is built of.
type dict struct {
	Tags  [][2]string `json:"tags,omitempty"` // name and parent
	Words []word      `json:"words,omitempty"`
}

// built is the reference for the answers expected, with identifiers as the index gives them.
type built struct {
	dict  dict
	image []byte

	prefixes map[string]bool
	sets     map[string]map[string]bool // tag sets by word, in canonical form
	all      map[string]bool            // all tag sets in canonical form
	children map[string]map[rune]bool

	nodes    []string          // prefixes by node id
	ids      map[string]uint32 // node ids by prefix
	tables   []int             // tag sets by table
	setsByID map[uint32][]string
	variants map[uint32]map[string]bool
}

func canon(tags []string) string {
	s := append([]string{}, tags...)
	sort.Strings(s)

	return strings.Join(s, ",")
}

var scratchCount atomic.Int64

func scratch() (string, func()) {
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("console%d", scratchCount.Add(1)))
	if err := os.MkdirAll(filepath.Join(dir, ".data", "opencorpora"), 0o755); err != nil {
		panic(err)
	}

	return dir, func() { _ = os.RemoveAll(dir) }
}

func place(dir string, b *built) error {
	target := filepath.Join(dir, ".data", "opencorpora", "opencorpora.dat")
	if err := os.WriteFile(target+".new", b.image, 0o644); err != nil {
		return err
	}

	return os.Rename(target+".new", target)
}

// build makes the index of a dictionary and the reference for it.
func build(d dict) (b *built, err error) {
	ix := index.New()

	for _, tag := range d.Tags {
		ix.TagID(dag.TagName(tag[0]), dag.TagName(tag[1]))
	}

	b = &built{
		dict: d, prefixes: map[string]bool{}, sets: map[string]map[string]bool{}, all: map[string]bool{},
		children: map[string]map[rune]bool{}, ids: map[string]uint32{}, setsByID: map[uint32][]string{},
		variants: map[uint32]map[string]bool{},
	}

	for _, w := range d.Words {
		node, err := ix.AddString(w.Text)
		if err != nil {
			return nil, mc.Failf("adding %q: %v", w.Text, err)
		}

		runes := []rune(w.Text)
		for i := range runes {
			b.prefixes[string(runes[:i+1])] = true

			parent := string(runes[:i])
			if b.children[parent] == nil {
				b.children[parent] = map[rune]bool{}
			}

			b.children[parent][runes[i]] = true
		}

		for _, set := range w.Sets {
			names := make([]dag.TagName, len(set))
			for i := range set {
				names[i] = dag.TagName(set[i])
			}

			if err := node.AddTagSet(names...); err != nil {
				return nil, mc.Failf("adding %v to %q: %v", set, w.Text, err)
			}

			if b.sets[w.Text] == nil {
				b.sets[w.Text] = map[string]bool{}
			}

			b.sets[w.Text][canon(set)] = true
			b.all[canon(set)] = true
		}
	}

	var image bytes.Buffer
	if err := ix.BinaryWriteTo(binutils.NewBinaryWriter(&image)); err != nil {
		return nil, mc.Failf("saving: %v", err)
	}

	b.image = image.Bytes()
	ix = index.New()

	if err := ix.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(b.image))); err != nil {
		return nil, mc.Failf("loading: %v", err)
	}

	return b, b.identify(ix)
}

// identify learns which identifiers the index uses.
func (b *built) identify(ix *index.Index) error {
	b.nodes = make([]string, len(b.prefixes)+1)
	b.ids[""] = 0

	for p := range b.prefixes {
		node, err := ix.FetchItemFromParent(0, []rune(p))
		if err != nil {
			return mc.Failf("fetching %q: %v", p, err)
		}

		id := node.Id()
		if int(id) < 1 || int(id) >= len(b.nodes) || b.nodes[id] != "" {
			return mc.Failf("node %d of %q is out of range or of another string", id, p)
		}

		b.nodes[id] = p
		b.ids[p] = uint32(id)

		if id := uint32(node.Item().Variants); id != 0 || len(b.sets[p]) > 0 {
			b.variants[id] = b.sets[p]
		}
	}

	for num, table := range ix.TagSetIndex() {
		b.tables = append(b.tables, len(table))

		for sub, set := range table {
			names := make([]string, len(set))
			for i, id := range set {
				names[i] = b.dict.Tags[id][0]
			}

			b.setsByID[uint32(num)<<16|uint32(sub)] = names
		}
	}

	// lists of tag sets no string has any more are in range too
	for table := uint32(1); table <= 300; table++ {
		for sub := uint32(0); sub <= 0xffff; sub++ {
			id := table<<16 | sub

			list, err := ix.Variants(index.VariantID(id))
			if err != nil {
				break
			}

			if b.variants[id] == nil {
				b.variants[id] = map[string]bool{}

				for _, set := range list {
					b.variants[id][canon(b.setsByID[uint32(set)])] = true
				}
			}
		}
	}

	if len(b.setsByID) != len(b.all) {
		return mc.Failf("%d tag sets stored, %d attributed", len(b.setsByID), len(b.all))
	}

	return nil
}

// reply is what the console printed for one line.
type reply struct {
	text   string   // printed
	logged []string // messages below error
	errors []string // error messages
}

func parse(out string) (r reply) {
	for {
		from := strings.IndexByte(out, 1)
		if from < 0 {
			break
		}

		mid, to := strings.IndexByte(out[from:], 2), strings.Index(out[from:], "\x03\n")
		if mid < 0 || to < mid {
			break
		}

		r.text += out[:from]
		level, message := out[from+1:from+mid], out[from+mid+1:from+to]
		out = out[from+to+2:]

		if level == "error" {
			r.errors = append(r.errors, message)
		} else {
			r.logged = append(r.logged, message)
		}
	}

	r.text += out

	return r
}

// talk runs a console over lines and returns what it printed for each one answered, whether it was waiting for one more
// line at the end, and its exit code.
func talk(dir string, input []byte) (replies []reply, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()

	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CONSOLE"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_LOG=1", "GOMAXPROCS=1", "GOTRACEBACK=none")
	cmd.Stdin = bytes.NewReader(input)

	var out bytes.Buffer

	cmd.Stdout = &out
	cmd.Stderr = io.Discard

	switch failure := cmd.Run().(type) {
	case nil:
	case *exec.ExitError:
		code = failure.ExitCode()
	default:
		return nil, 0, failure
	}

	if ctx.Err() != nil {
		return nil, 0, mc.Failf("the console does not end")
	}

	parts := strings.Split(out.String(), "\x00")
	for _, part := range parts[1:] {
		replies = append(replies, parse(part))
	}

	return replies, code, nil
}
