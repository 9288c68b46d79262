//go:build go1.22

// Package main checks the dictionary index (internal/index): I01-I06.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	mc.Main(map[string]func(c *mc.C){
		"I01": checkWords, "I02": checkAttribution, "I03": checkReload, "I04": checkOptimize, "I05": checkImageFaults, "I06": checkStores, "I08": checkBlocks, "D06": checkTexts, "I09": checkDamage,
	}, map[string]string{
		"I01": "model_checking", "I02": "model_checking", "I03": "model_checking", "I04": "model_checking",
		"I05": "fault_enumeration", "I06": "model_checking", "I08": "exploration", "D06": "exploration", "I09": "fault_enumeration",
	})
}

// set is a reference tag set: names in the order of attribution.
type set []string

// canon is the canonical form of a tag set: its tags with parents, sorted.
func canon(tags []string) string {
	s := append([]string{}, tags...)
	sort.Strings(s)

	return "{" + strings.Join(s, " ") + "}"
}

// world is an index driven in lockstep with its reference: all prefixes with their ids, registered tags, attributed sets.
type world struct {
	ix      *index.Index
	twin    *index.Index // same history without saving, loading and optimizing (nil: not used)
	strs    []string     // strings by node id, root is 0
	ids     map[string]int
	tags    []dag.Tag
	parents map[string]string
	sets    []map[string]bool
	held    []dag.Node // nodes as first returned
	reload  int
	kept    *kept
}

// kept is an index saved to be loaded again later.
type kept struct {
	image, twin []byte
	reference   world
}

// keep saves the index to be loaded again later.
func (w *world) keep() error {
	k := &kept{reference: w.reference()}

	var err error
	if k.image, err = save(w.ix); err != nil {
		return mc.Failf("saving: %v", err)
	}

	if w.twin != nil {
		if k.twin, err = save(w.twin); err != nil {
			return mc.Failf("saving: %v", err)
		}
	}

	w.kept = k

	return nil
}

// restore loads the index kept before into the used one; the twin is loaded anew.
func (w *world) restore() error {
	if w.kept == nil {
		return nil
	}

	if err := load(w.ix, w.kept.image, 0); err != nil {
		return err
	}

	if w.twin != nil {
		w.twin = index.New()
		if err := load(w.twin, w.kept.twin, 0); err != nil {
			return err
		}
	}

	r := w.kept.reference.reference()
	w.strs, w.ids, w.tags, w.parents, w.sets = r.strs, r.ids, r.tags, r.parents, r.sets
	w.held = make([]dag.Node, len(w.strs))

	return nil
}

// reference is a copy of the reference.
func (w *world) reference() world {
	r := world{
		strs: append([]string{}, w.strs...), ids: map[string]int{}, tags: append([]dag.Tag{}, w.tags...), parents: map[string]string{},
	}

	for s, id := range w.ids {
		r.ids[s] = id
	}

	for name, parent := range w.parents {
		r.parents[name] = parent
	}

	for _, sets := range w.sets {
		own := map[string]bool{}
		for s := range sets {
			own[s] = true
		}

		r.sets = append(r.sets, own)
	}

	return r
}

// mirror makes an index with the letters of the nodes of another one, each below another parent where that is possible, with other tag
// sets attributed.
func mirror(ix *index.Index) (*index.Index, error) {
	res := index.New()
	taken := map[string]bool{}

	for _, tag := range ix.Tags() {
		res.TagID(tag.Name, "QQQQ")
	}

	res.TagID("QQQQ", "")

	for id := 1; id <= ix.NodesCount(); id++ {
		item := ix.GetItem(dag.ID(id)).Item()
		parent := int(item.Parent)

		for back := 1; back <= 4 && back <= id; back++ {
			if id-back != int(item.Parent) && !taken[fmt.Sprint(id-back, item.Letter)] {
				parent = id - back
				break
			}
		}

		taken[fmt.Sprint(parent, item.Letter)] = true

		node, err := res.AddToNode(dag.ID(parent), []rune{item.Letter})
		if err != nil || idOf(node) != id {
			return nil, mc.Failf("continuing node %d by %q: node %d, %v", parent, item.Letter, idOf(node), err)
		}

		tags := []dag.TagName{"QQQQ"}
		if len(ix.Tags()) > 0 && id%2 == 0 {
			tags = append(tags, ix.Tags()[0].Name)
		}

		if err = node.AddTagSet(tags...); err != nil {
			return nil, err
		}
	}

	return res, nil
}

// ask asks an index everything about its own words and those of another one.
func ask(ix, another *index.Index) {
	_ = dump(ix, true)

	for _, of := range []*index.Index{ix, another} {
		for id := 1; id <= of.NodesCount(); id++ {
			word := of.GetItem(dag.ID(id)).Word()
			runes := []rune(word)

			for _, s := range []string{word, word + "q"} {
				_, _ = ix.FetchString(s)
				_, _ = ix.FetchRunes([]rune(s))
			}

			if node, err := ix.Get(dag.ID(id)); err == nil && node != nil {
				_ = node.TagSets()
			}

			item := of.GetItem(dag.ID(id)).Item()
			_, _ = ix.FetchItemFromParent(item.Parent, runes[len(runes)-1:])
			_, _ = ix.FetchFromItem(item.Parent, runes[len(runes)-1:])
		}
	}

	for id := 0; id < 4; id++ {
		_, _ = ix.FetchFromItem(dag.ID(id), []rune("ab"))
		_, _ = ix.FetchItemFromParent(dag.ID(id), []rune("bя"))
	}
}

func newWorld(twin bool) *world {
	w := &world{ix: index.New(), strs: []string{""}, ids: map[string]int{"": 0}, parents: map[string]string{}, sets: []map[string]bool{{}}, held: []dag.Node{nil}}
	if twin {
		w.twin = index.New()
	}

	return w
}

func (w *world) each(f func(ix *index.Index) error) error {
	if err := f(w.ix); err != nil {
		return err
	}

	if w.twin != nil {
		if err := f(w.twin); err != nil {
			return mc.Failf("index not saved or optimized before: %v", err)
		}
	}

	return nil
}

// learn registers all prefixes of s in the reference; returns id of s.
func (w *world) learn(s string) int {
	for pos := range s {
		if pos > 0 {
			w.learnOne(s[:pos])
		}
	}

	return w.learnOne(s)
}

func (w *world) learnOne(s string) int {
	if id, ok := w.ids[s]; ok {
		return id
	}

	w.ids[s] = len(w.strs)
	w.strs = append(w.strs, s)
	w.sets = append(w.sets, map[string]bool{})
	w.held = append(w.held, nil)

	return len(w.strs) - 1
}

// add adds a word and compares the node got.
func (w *world) add(word, how string) error {
	id := w.learn(word)

	return w.each(func(ix *index.Index) error {
		var (
			node dag.Node
			err  error
		)

		if how == "runes" {
			node, err = ix.AddRunes([]rune(word))
		} else {
			node, err = ix.AddString(word)
		}

		if err != nil {
			return mc.Failf("adding %q: %v", word, err)
		}

		if err = w.checkNode(node, id); err != nil {
			return mc.Failf("adding %q: %v", word, err)
		}

		if ix == w.ix && w.held[id] == nil {
			w.held[id] = node
		}

		return nil
	})
}

// extend continues the string of an existing node.
func (w *world) extend(base, rest string) error {
	from, ok := w.ids[base]
	if !ok {
		return nil
	}

	id := w.learn(base + rest)

	return w.each(func(ix *index.Index) error {
		node, err := ix.AddToNode(dag.ID(from), []rune(rest))
		if err != nil {
			return mc.Failf("continuing node %d %q by %q: %v", from, base, rest, err)
		}

		return w.checkNode(node, id)
	})
}

// refuse makes all additions which have to be refused.
func (w *world) refuse() error {
	return w.each(func(ix *index.Index) error {
		if _, err := ix.AddString(""); err == nil {
			return mc.Failf("empty string added")
		}

		if _, err := ix.AddRunes(nil); err == nil {
			return mc.Failf("empty runes added")
		}

		for _, id := range []int{0, 1, len(w.strs) - 1} {
			if _, err := ix.AddToNode(dag.ID(id), []rune{}); err == nil {
				return mc.Failf("empty continuation of %d added", id)
			}
		}

		for _, id := range w.unknown() {
			if _, err := ix.AddToNode(dag.ID(id), []rune("a")); err == nil {
				return mc.Failf("continuation of unknown node %d added", id)
			}

			if _, err := ix.AddToNode(dag.ID(id), []rune("ab")); err == nil {
				return mc.Failf("continuation of unknown node %d added", id)
			}
		}

		return nil
	})
}

func (w *world) unknown() []int {
	n := len(w.strs)

	return []int{n, n + 1, n + 6, n + 1000, 0x7fffffff, 0xffffffff}
}

// register registers a tag.
func (w *world) register(name, parent string) error {
	want := -1

	for i, tag := range w.tags {
		if string(tag.Name) == name {
			want = i
		}
	}

	if want < 0 {
		want = len(w.tags)

		if parent == "" {
			w.tags = append(w.tags, dag.Tag{Parent: dag.EmptyTagName, Name: dag.TagName(name)})
		} else {
			w.tags = append(w.tags, dag.Tag{Parent: dag.TagName(parent), Name: dag.TagName(name)})
		}

		w.parents[name] = string(w.tags[want].Parent)
	}

	return w.each(func(ix *index.Index) error {
		if got := ix.TagID(dag.TagName(name), dag.TagName(parent)); int(got) != want {
			return mc.Failf("tag %q got id %d, expected %d", name, got, want)
		}

		return nil
	})
}

// attribute attributes a tag set to a word. how: "add" adds the word (again), "fetch" looks it up, "held" uses the node
// got when it was added first, "get" fetches the node by its id.
func (w *world) attribute(word string, tags set, how string) error {
	id, known := w.ids[word]
	if how == "add" {
		id = w.learn(word)
	} else if !known {
		return nil
	}

	ok := true
	full := make([]string, 0, len(tags))

	for _, name := range tags {
		parent, registered := w.parents[name]
		if !registered {
			ok = false
		}

		full = append(full, parent+"/"+name)
	}

	if ok && len(tags) > 0 && id != 0 {
		w.sets[id][canon(full)] = true
	}

	return w.each(func(ix *index.Index) error {
		var (
			node dag.Node
			err  error
		)

		switch {
		case id == 0:
			node = ix.GetItem(0)
		case how == "add":
			node, err = ix.AddString(word)
		case how == "held" && ix == w.ix && w.held[id] != nil:
			node = w.held[id]
		case how == "get":
			node, err = ix.Get(dag.ID(id))
		default:
			node, err = ix.FetchString(word)
		}

		if err != nil {
			return mc.Failf("getting %q: %v", word, err)
		}

		names := make([]dag.TagName, len(tags), len(tags)+2)
		for i, name := range tags {
			names[i] = dag.TagName(name)
		}

		var before []byte

		void := !ok || len(tags) == 0
		if void {
			before, _ = save(ix)
		}

		err = node.AddTagSet(names...)

		if void {
			if after, _ := save(ix); !bytes.Equal(before, after) {
				return mc.Failf("attributing %v to %q has to change nothing but changes the image from %q to %q", tags, word, before, after)
			}
		}

		for i := range names[:cap(names)] { // caller is free to reuse its slice
			names[:cap(names)][i] = "ZZZZ"
		}

		switch {
		case len(tags) == 0:
		case !ok && err == nil:
			return mc.Failf("attributing %v with an unregistered tag to %q succeeds", tags, word)
		case ok && id != 0 && err != nil:
			return mc.Failf("attributing %v to %q: %v", tags, word, err)
		}

		return nil
	})
}

// checkNode compares a node with the reference.
func (w *world) checkNode(node dag.Node, id int) error {
	if node == nil {
		return mc.Failf("no node, expected %d", id)
	}

	n, ok := node.(*index.Node)
	if !ok {
		return mc.Failf("node of type %T", node)
	}

	if n == nil {
		return mc.Failf("no node, expected %d", id)
	}

	if int(n.Id()) != id {
		return mc.Failf("got node %d, expected %d", n.Id(), id)
	}

	if n.Word() != w.strs[id] {
		return mc.Failf("node %d spells %q, expected %q", id, n.Word(), w.strs[id])
	}

	if id == 0 {
		return nil
	}

	runes := []rune(w.strs[id])
	parent := w.ids[string(runes[:len(runes)-1])]
	item := n.Item()

	if int(item.ID) != id || int(item.Parent) != parent || item.Letter != runes[len(runes)-1] {
		return mc.Failf("node %d holds %+v, expected parent %d, letter %q", id, item, parent, runes[len(runes)-1])
	}

	return nil
}

// checkWordsOf compares everything about words of one index; probes are additional strings to look up.
func (w *world) checkWordsOf(ix *index.Index, probes []string) error {
	n := len(w.strs) - 1

	if ix.NodesCount() != n {
		return mc.Failf("%d nodes, expected %d", ix.NodesCount(), n)
	}

	children := make([]map[rune]int, n+1)

	for id := 0; id <= n; id++ {
		children[id] = map[rune]int{}

		node, err := ix.Get(dag.ID(id))
		if err != nil {
			return mc.Failf("getting node %d of %d: %v", id, n, err)
		}

		if err = w.checkNode(node, id); err != nil {
			return mc.Failf("node %d: %v", id, err)
		}

		if err = w.checkNode(ix.GetItem(dag.ID(id)), id); err != nil {
			return mc.Failf("item %d: %v", id, err)
		}

		if id == 0 {
			continue
		}

		runes := []rune(w.strs[id])
		children[w.ids[string(runes[:len(runes)-1])]][runes[len(runes)-1]] = id

		if err = w.lookup(ix, 0, runes, id); err != nil {
			return err
		}

		for cut := 1; cut < len(runes); cut++ {
			if err = w.lookup(ix, w.ids[string(runes[:cut])], runes[cut:], id); err != nil {
				return err
			}
		}
	}

	for id := 0; id <= n; id++ {
		got := ix.GetChildrenMap(dag.ID(id))
		if len(got) != len(children[id]) {
			return mc.Failf("node %d has %d children, expected %v", id, len(got), children[id])
		}

		for letter, child := range children[id] {
			if got[letter] == nil {
				return mc.Failf("node %d: no child %q", id, letter)
			}

			if err := w.checkNode(got[letter], child); err != nil {
				return mc.Failf("child %q of %d: %v", letter, id, err)
			}
		}
	}

	if len(ix.Children()) != len(children[0]) {
		return mc.Failf("%d children of the root, expected %d", len(ix.Children()), len(children[0]))
	}

	for _, id := range w.unknown() {
		if node, err := ix.Get(dag.ID(id)); err == nil {
			return mc.Failf("getting unknown node %d of %d: %v", id, n, idOf(node))
		}

		if err := w.lookup(ix, id, []rune("a"), -1); err != nil {
			return err
		}
	}

	for _, probe := range probes {
		id, ok := w.ids[probe]
		if !ok {
			id = -1
		}

		if probe != "" {
			if err := w.lookup(ix, 0, []rune(probe), id); err != nil {
				return err
			}
		}

		for from := 1; from <= n && from <= 6; from++ {
			id, ok := w.ids[w.strs[from]+probe]
			if !ok || probe == "" {
				id = -1
			}

			if err := w.lookup(ix, from, []rune(probe), id); err != nil {
				return err
			}
		}
	}

	return w.lookup(ix, 0, nil, -1)
}

// lookup makes all lookups of runes from a node, expecting node id (-1: not found).
func (w *world) lookup(ix *index.Index, from int, runes []rune, id int) error {
	kind := "continuation"

	check := func(node dag.Node, err error) error {
		switch {
		case id < 0 && err == nil:
			return mc.Failf("%s of node %d by %q is found as %d %q", kind, from, string(runes), idOf(node), node.Word())
		case id < 0:
			return nil
		case err != nil:
			return mc.Failf("%s of node %d by %q is not found: %v, expected node %d", kind, from, string(runes), err, id)
		}

		if err = w.checkNode(node, id); err != nil {
			return mc.Failf("%s of node %d by %q: %v", kind, from, string(runes), err)
		}

		return nil
	}

	if err := check(ix.FetchFromItem(dag.ID(from), runes)); err != nil {
		return err
	}

	node, err := ix.FetchItemFromParent(dag.ID(from), runes)
	if err = check(node, err); err != nil {
		return err
	}

	if from == 0 {
		kind = "lookup"

		if err = check(ix.FetchString(string(runes))); err != nil {
			return err
		}

		return check(ix.FetchRunes(runes))
	}

	return nil
}

func (w *world) checkWords(probes []string) error {
	err := w.each(func(ix *index.Index) error { return w.checkWordsOf(ix, probes) })
	if err != nil {
		return err
	}

	for id, node := range w.held {
		if node != nil {
			if err = w.checkNode(node, id); err != nil {
				return mc.Failf("node kept since it was added: %v", err)
			}
		}
	}

	return nil
}

func nodeSets(node dag.Node) []string {
	var res []string

	for _, tagSet := range node.TagSets() {
		names := make([]string, len(tagSet))
		for i, tag := range tagSet {
			names[i] = string(tag.Parent) + "/" + string(tag.Name)
		}

		res = append(res, canon(names))
	}

	return res
}

// checkTags compares tag sets of all words, tags and word counts.
func (w *world) checkTags() error {
	return w.each(func(ix *index.Index) error {
		words := 0

		for id := range w.strs {
			node, err := ix.Get(dag.ID(id))
			if err != nil {
				return err
			}

			got := nodeSets(node)
			if ix == w.ix && w.held[id] != nil {
				if again := nodeSets(w.held[id]); strings.Join(again, "") != strings.Join(got, "") {
					return mc.Failf("word %q reports %v by its node kept and %v by a new one", w.strs[id], again, got)
				}
			}

			sort.Strings(got)

			var want []string
			for s := range w.sets[id] {
				want = append(want, s)
			}

			sort.Strings(want)

			if strings.Join(got, "") != strings.Join(want, "") {
				return mc.Failf("word %q has tag sets %v, expected %v", w.strs[id], got, want)
			}

			if len(want) > 0 {
				words++
			}
		}

		if ix.WordsCount() != words {
			return mc.Failf("word count is %d, expected %d", ix.WordsCount(), words)
		}

		return w.checkTagList(ix)
	})
}

func (w *world) checkTagList(ix *index.Index) error {
	list := ix.Tags()
	if list.Len() != len(w.tags) {
		return mc.Failf("%d tags, expected %d", list.Len(), len(w.tags))
	}

	for i, tag := range w.tags {
		if got, ok := list.Get(dag.TagID(i)); !ok || got != tag {
			return mc.Failf("tag %d is %v, %v, expected %v", i, got, ok, tag)
		}
	}

	return nil
}

// save saves the index into bytes.
func save(ix *index.Index) ([]byte, error) {
	var buf bytes.Buffer

	err := ix.BinaryWriteTo(binutils.NewBinaryWriter(&buf))

	return buf.Bytes(), err
}

func load(ix *index.Index, data []byte, tail int) error {
	source := bytes.NewReader(append(append([]byte{}, data...), bytes.Repeat([]byte{0xa5}, tail)...))

	if err := ix.BinaryReadFrom(binutils.NewBinaryReader(source)); err != nil {
		return mc.Failf("loading a saved index: %v", err)
	}

	if source.Len() != tail {
		return mc.Failf("loading takes %d bytes of an image of %d", len(data)+tail-source.Len(), len(data))
	}

	return nil
}

// dirty makes an index holding other data.
func dirty() *index.Index {
	ix := index.New()
	ix.TagID("QQQQ", "")
	ix.TagID("AAAA", "QQQQ")
	ix.TagID("BBBB", "QQQQ")

	for _, word := range []string{"b", "ba", "qqq", "abab", "я", "aqa"} {
		node, err := ix.AddString(word)
		if err != nil {
			panic(err)
		}

		for _, tags := range [][]dag.TagName{{"QQQQ"}, {"QQQQ", "AAAA"}, {"BBBB"}, {"BBBB", "QQQQ", "AAAA"}} {
			if err = node.AddTagSet(tags...); err != nil {
				panic(err)
			}
		}
	}

	return ix
}

// dump is everything an index answers, ids of combinations optional.
func dump(ix *index.Index, variants bool) string {
	var b strings.Builder

	n := ix.NodesCount()
	fmt.Fprintf(&b, "nodes %d words %d tags", n, ix.WordsCount())

	for _, tag := range ix.Tags() {
		fmt.Fprintf(&b, " %s/%s", tag.Parent, tag.Name)
	}

	for id := 0; id <= n; id++ {
		node := ix.GetItem(dag.ID(id))
		item := node.Item()
		fmt.Fprintf(&b, "\n%d %d %q %q", id, item.Parent, item.Letter, node.Word())

		if variants {
			fmt.Fprintf(&b, " %#x", uint32(item.Variants))
		}

		for _, tagSet := range node.TagSets() {
			b.WriteString(" [")

			for _, tag := range tagSet {
				fmt.Fprintf(&b, "%s/%s ", tag.Parent, tag.Name)
			}

			b.WriteString("]")
		}

		ids, err := ix.Variants(item.Variants)
		fmt.Fprintf(&b, " %v", err)

		if !variants {
			ids = nil
		}

		for _, tagSetID := range ids {
			tagSet, ok := ix.TagSetIndex().Get(tagSetID)
			fmt.Fprintf(&b, " %#x%v%v", uint32(tagSetID), ok, tagSet)
		}

		children := ix.GetChildrenMap(dag.ID(id))
		letters := make([]int, 0, len(children))

		for letter := range children {
			letters = append(letters, int(letter))
		}

		sort.Ints(letters)

		for _, letter := range letters {
			fmt.Fprintf(&b, " %q:%d", rune(letter), idOf(children[rune(letter)]))
		}
	}

	return b.String()
}

func firstDifference(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")

	for i := 0; i < len(la) || i < len(lb); i++ {
		va, vb := "(nothing)", "(nothing)"
		if i < len(la) {
			va = la[i]
		}

		if i < len(lb) {
			vb = lb[i]
		}

		if va != vb {
			return fmt.Sprintf("%s\n  instead of\n%s", va, vb)
		}
	}

	return "nothing"
}

// state is the canonical reference state.
func (w *world) state() string {
	var b strings.Builder

	for id, s := range w.strs {
		b.WriteString(s)

		var sets []string
		for s := range w.sets[id] {
			sets = append(sets, s)
		}

		sort.Strings(sets)
		b.WriteString(strings.Join(sets, ""))
		b.WriteByte('\n')
	}

	for _, tag := range w.tags {
		b.WriteString(string(tag.Parent) + string(tag.Name) + " ")
	}

	if w.kept != nil {
		b.WriteString("\nkept " + w.kept.reference.state())
	}

	return b.String()
}

// strings over letters up to a length.
func stringsOver(letters []rune, max int) (res []string) {
	for n := 1; n <= max; n++ {
		mc.Each(len(letters), n, func(word []int) bool {
			s := ""
			for _, l := range word {
				s += string(letters[l])
			}

			res = append(res, s)

			return true
		})
	}

	return res
}

type op struct {
	name string
	run  func(w *world) error
}

// lockstep makes a lockstep of operations; check is made after every step (swept) or only at the end.
func lockstep(name string, ops []op, twin, swept bool, check func(w *world) error) mc.Lockstep[*world] {
	l := mc.Lockstep[*world]{
		Name: name,
		New:  func() *world { return newWorld(twin) },
		Key:  func(w *world) string { return w.state() },
	}

	for _, o := range ops {
		l.Ops = append(l.Ops, o.name)
	}

	if swept {
		l.Step = func(w *world, i int) error {
			if err := ops[i].run(w); err != nil {
				return err
			}

			return check(w)
		}
	} else {
		l.Step = func(w *world, i int) error { return ops[i].run(w) }
		l.Final = check
	}

	return l
}

func addOp(word, how string) op {
	return op{"add " + how + " " + word, func(w *world) error { return w.add(word, how) }}
}

func extendOp(base, rest string) op {
	return op{"continue " + base + " by " + rest, func(w *world) error { return w.extend(base, rest) }}
}

func tagOp(name, parent string) op {
	return op{"register " + parent + "/" + name, func(w *world) error { return w.register(name, parent) }}
}

func attrOp(word, how string, tags ...string) op {
	return op{fmt.Sprintf("attribute %v to %q (%s)", tags, word, how), func(w *world) error { return w.attribute(word, tags, how) }}
}

var keepOps = []op{
	{"keep the image", func(w *world) error { return w.keep() }},
	{"load the kept image", func(w *world) error { return w.restore() }},
}

// idOf is the id of a node, -1 if there is none.
func idOf(node dag.Node) int {
	if n, ok := node.(*index.Node); ok && n != nil {
		return int(n.Id())
	}

	return -1
}
