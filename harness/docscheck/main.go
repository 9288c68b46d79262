//go:build go1.22

// Package main checks the dictionary data structures of pkg/opencorpora: O07.
package main

import (
	"encoding/xml"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

func main() {
	mc.Main(map[string]func(c *mc.C){"O07": checkStructures}, map[string]string{"O07": "exploration"})
}

// The reference of a document: what it says, element by element.
type (
	gram struct{ Parent, Name, Alias, Text string }
	form struct {
		Form string
		Tags []string
	}
	lemma struct {
		ID, Rev int
		Base    form
		Forms   []form
	}
	restr struct {
		Type        string
		Auto        int
		Left, Right string
	}
	link struct{ ID, From, To, Type uint32 }

	document struct {
		Version  string
		Revision int
		Grams    []gram
		Restrs   []restr
		Lemmas   []lemma
		Types    []int
		Links    []link
		Style    int // spelling of the document
	}
)

const styles = 4

func quote(s string) string {
	var b strings.Builder
	_ = xml.EscapeText(&b, []byte(s))

	return b.String()
}

// writer spells a document: attribute order, kind of quotes, empty element form, space and comments between elements.
type writer struct {
	strings.Builder
	style int
}

func (w *writer) open(name string, close bool, attrs ...string) {
	w.gap()
	w.WriteString("<" + name)

	n := len(attrs) / 2
	for i := 0; i < n; i++ {
		k := i
		if w.style&1 == 1 {
			k = n - 1 - i
		}

		if w.style&1 == 1 {
			fmt.Fprintf(w, "\n  %s='%s'", attrs[2*k], quote(attrs[2*k+1]))
		} else {
			fmt.Fprintf(w, " %s=\"%s\"", attrs[2*k], quote(attrs[2*k+1]))
		}
	}

	switch {
	case close && w.style&2 == 0:
		w.WriteString("/>")
	case close:
		w.WriteString("></" + name + ">")
	default:
		w.WriteString(">")
	}
}

func (w *writer) gap() {
	if w.style&2 != 0 {
		w.WriteString("\n <!-- - --> ")
	}
}

func (w *writer) close(name string) {
	w.gap()
	w.WriteString("</" + name + ">")
}

func (w *writer) text(name, value string) {
	w.gap()
	w.WriteString("<" + name + ">" + quote(value) + "</" + name + ">")
}

func (w *writer) form(name string, f form) {
	w.open(name, false, "t", f.Form)

	for _, t := range f.Tags {
		w.open("g", true, "v", t)
	}

	w.close(name)
}

func (d document) text() string {
	w := &writer{style: d.Style}
	w.WriteString(`<?xml version="1.0" encoding="utf-8" standalone="yes"?>`)
	w.open("dictionary", false, "version", d.Version, "revision", strconv.Itoa(d.Revision))

	w.open("grammemes", false)

	for _, g := range d.Grams {
		w.open("grammeme", false, "parent", g.Parent)
		w.text("name", g.Name)
		w.text("alias", g.Alias)
		w.text("description", g.Text)
		w.close("grammeme")
	}

	w.close("grammemes")
	w.open("restrictions", false)

	for _, r := range d.Restrs {
		w.open("restr", false, "type", r.Type, "auto", strconv.Itoa(r.Auto))
		w.open("left", true, "type", r.Left)
		w.open("right", true, "type", r.Right)
		w.close("restr")
	}

	w.close("restrictions")
	w.open("lemmata", false)

	for _, l := range d.Lemmas {
		w.open("lemma", false, "id", strconv.Itoa(l.ID), "rev", strconv.Itoa(l.Rev))
		w.form("l", l.Base)

		for _, f := range l.Forms {
			w.form("f", f)
		}

		w.close("lemma")
	}

	w.close("lemmata")
	w.open("link_types", false)

	for _, t := range d.Types {
		w.open("type", true, "id", strconv.Itoa(t))
	}

	w.close("link_types")
	w.open("links", false)

	for _, l := range d.Links {
		w.open("link", true, "id", fmt.Sprint(l.ID), "from", fmt.Sprint(l.From), "to", fmt.Sprint(l.To), "type", fmt.Sprint(l.Type))
	}

	w.close("links")
	w.close("dictionary")

	return w.String()
}

func namesOf(f opencorpora.WordForm) (names []string) {
	for _, t := range f.GetTagsFromSet() {
		names = append(names, string(t))
	}

	return names
}

func formDiff(where string, got opencorpora.WordForm, want form) error {
	if got.Form != want.Form {
		return mc.Failf("%s: form %q, not %q", where, got.Form, want.Form)
	}

	return tagsDiff(where+" "+want.Form, got, want.Tags)
}

// tagsDiff compares all ways to read the tags of a form.
func tagsDiff(where string, got opencorpora.WordForm, want []string) error {
	if names := namesOf(got); strings.Join(names, "|") != strings.Join(want, "|") || len(names) != len(want) {
		return mc.Failf("%s: tags of the form are %q, not %q", where, names, want)
	}

	var names []string
	for _, t := range got.G.GrammemeNames() {
		names = append(names, string(t))
	}

	if strings.Join(names, "|") != strings.Join(want, "|") || len(names) != len(want) {
		return mc.Failf("%s: grammeme names are %q, not %q", where, names, want)
	}

	if text := got.G.String(); text != strings.Join(want, ",") {
		return mc.Failf("%s: text of categories is %q, not %q", where, text, strings.Join(want, ","))
	}

	return nil
}

func lemmaDiff(where string, got opencorpora.Lemma, want lemma) error {
	if got.IdAttr != want.ID || got.RevAttr != want.Rev {
		return mc.Failf("%s: id %d and revision %d, not %d and %d", where, got.IdAttr, got.RevAttr, want.ID, want.Rev)
	}

	if err := formDiff(where+" base", got.L, want.Base); err != nil {
		return err
	}

	if len(got.F) != len(want.Forms) {
		return mc.Failf("%s: %d forms, not %d", where, len(got.F), len(want.Forms))
	}

	for i, f := range want.Forms {
		if err := formDiff(fmt.Sprintf("%s form %d", where, i), *got.F[i], f); err != nil {
			return err
		}
	}

	return nil
}

// run decodes the document and compares everything the structures say with it.
func (d document) run(words []string) error {
	var got opencorpora.Dictionary

	if err := xml.Unmarshal([]byte(d.text()), &got); err != nil {
		return mc.Failf("decode: %v", err)
	}

	if version, _ := strconv.ParseFloat(d.Version, 64); got.VersionAttr != version || got.RevisionAttr != d.Revision {
		return mc.Failf("version %v revision %d, not %v and %d", got.VersionAttr, got.RevisionAttr, version, d.Revision)
	}

	if got.Grammemes == nil || got.Restrictions == nil || got.Lemmata == nil || got.Linktypes == nil || got.Links == nil {
		return mc.Failf("a section of the document is missing")
	}

	if len(got.Grammemes.Grammeme) != len(d.Grams) || len(got.Restrictions.Restr) != len(d.Restrs) || len(got.Lemmata.Items) != len(d.Lemmas) ||
		len(got.Linktypes.Type) != len(d.Types) || len(got.Links.Items) != len(d.Links) {
		return mc.Failf("%d grammemes, %d restrictions, %d lemmas, %d link types, %d links, not %d, %d, %d, %d, %d",
			len(got.Grammemes.Grammeme), len(got.Restrictions.Restr), len(got.Lemmata.Items), len(got.Linktypes.Type), len(got.Links.Items),
			len(d.Grams), len(d.Restrs), len(d.Lemmas), len(d.Types), len(d.Links))
	}

	for i, g := range d.Grams {
		have := got.Grammemes.Grammeme[i]
		if (gram{string(have.ParentAttr), string(have.Name), have.Alias, have.Description}) != g {
			return mc.Failf("grammeme %d is %+v, not %+v", i, *have, g)
		}

		if tag := have.Tag(); string(tag.Name) != g.Name || string(tag.Parent) != parentOf(g.Parent) {
			return mc.Failf("tag of grammeme %d is %+v, not %+v", i, tag, g)
		}
	}

	for i, r := range d.Restrs {
		have := got.Restrictions.Restr[i]
		if have.Left == nil || have.Right == nil {
			return mc.Failf("restriction %d misses a side", i)
		}

		if (restr{have.TypeAttr, have.AutoAttr, have.Left.TypeAttr, have.Right.TypeAttr}) != r {
			return mc.Failf("restriction %d is %+v (%v, %v), not %+v", i, *have, *have.Left, *have.Right, r)
		}
	}

	for i, t := range d.Types {
		if got.Linktypes.Type[i].IDAttr != t {
			return mc.Failf("link type %d is %d, not %d", i, got.Linktypes.Type[i].IDAttr, t)
		}
	}

	for i, l := range d.Links {
		have := got.Links.Items[i]
		if (link{have.IdAttr, have.FromAttr, have.ToAttr, have.TypeAttr}) != l {
			return mc.Failf("link %d is %+v, not %+v", i, *have, l)
		}
	}

	for i, l := range d.Lemmas {
		if err := lemmaDiff(fmt.Sprintf("lemma %d", i), *got.Lemmata.Items[i], l); err != nil {
			return err
		}
	}

	return searchDiff(*got.Lemmata, d.Lemmas, words)
}

// searchDiff compares the answers of both searches for all the words with the lemmas there are, twice.
func searchDiff(got opencorpora.Lemmata, lemmas []lemma, words []string) error {
	for round := 0; round < 2; round++ {
		for _, word := range words {
			var want []lemma

			for _, l := range lemmas {
				if l.Base.Form == word {
					want = append(want, l)
				}
			}

			for _, found := range [][]opencorpora.Lemma{got.Search(word), got.Items.Search(word)} {
				if len(found) != len(want) {
					return mc.Failf("search %q: %d lemmas, not %d", word, len(found), len(want))
				}

				for i := range want {
					if err := lemmaDiff(fmt.Sprintf("search %q: lemma %d", word, i), found[i], want[i]); err != nil {
						return err
					}
				}

				for i := range found { // answers are the caller's own
					found[i].IdAttr, found[i].L.Form = -9, "changed"
				}
			}
		}
	}

	return nil
}

// parentOf is the parent of a tag: the empty tag name stands for none.
func parentOf(parent string) string {
	if parent == "" {
		return string(dag.EmptyTagName)
	}

	return parent
}

// sequences yields all sequences of up to n of the k items.
func sequences(k, n int, yield func([]int) bool) bool {
	var rec func(at []int) bool

	rec = func(at []int) bool {
		if !yield(at) {
			return false
		}

		if len(at) == n {
			return true
		}

		for i := 0; i < k; i++ {
			if !rec(append(at[:len(at):len(at)], i)) {
				return false
			}
		}

		return true
	}

	return rec(nil)
}

func pick[T any](items []T, at []int) (out []T) {
	for _, i := range at {
		out = append(out, items[i])
	}

	return out
}

var (
	grams = []gram{
		{"", "POST", "ЧР", "часть речи"}, {"POST", "NOUN", "СУЩ", "имя \"<существительное>\" & 'другое'"}, {"POST", "", "", ""}, {"ANim", "anim", "од", " одуш. "},
	}
	restrs = []restr{
		{"obligatory", 0, "lemma", "lemma"}, {"maybe", 1, "lemma", "form"}, {"forbidden", 0, "form", "lemma"}, {"", 1, "form", "form"},
	}
	links = []link{{1, 5, 6, 1}, {2, 6, 5, 1}, {4294967295, 4294967294, 4294967293, 27}, {0, 0, 0, 0}}
	types = []int{1, 2, 27, 0}

	tagNames = []string{"NOUN", "sing", "V-be", "Имя1"}
	words    = []string{"ёж", "ежи", "ёжик", "Ёж", "ё", "", "е\u0308ж", " ёж", "a b"}
)

type searching struct {
	Lemmas []int  `json:"lemmas"` // words of the lemmas, -1: no lemma
	Dup    []bool `json:"dup,omitempty"`
}

type attrs struct {
	Space []string `json:"space"`
	Local []string `json:"local"`
	Value []string `json:"value"`
}

// decimal is the specified reading of an integer attribute: an optional sign and decimal digits, within 64 bits.
func decimal(s string) (int, bool) {
	digits := strings.TrimPrefix(s, "-")
	if digits == s {
		digits = strings.TrimPrefix(s, "+")
	}

	if digits == "" {
		return 0, false
	}

	for _, r := range digits {
		if r < '0' || r > '9' {
			return 0, false
		}
	}

	n, _ := new(big.Int).SetString(digits, 10)
	if strings.HasPrefix(s, "-") {
		n.Neg(n)
	}

	if !n.IsInt64() {
		return 0, false
	}

	return int(n.Int64()), true
}

func (a attrs) run() error {
	var list opencorpora.Attr

	for i := range a.Local {
		list = append(list, xml.Attr{Name: xml.Name{Space: a.Space[i], Local: a.Local[i]}, Value: a.Value[i]})
	}

	before := fmt.Sprintf("%q", list)

	for _, name := range []string{"id", "rev", "ID", "i", "idd", ""} {
		want, there := "", false

		for i := range a.Local {
			if a.Local[i] == name {
				want, there = a.Value[i], true

				break
			}
		}

		got, err := list.GetString(name)
		if (err == nil) != there || there && got != want {
			return mc.Failf("attribute %q of %s: %q, %v, not %q (there: %v)", name, before, got, err, want, there)
		}

		number, fine := decimal(want)
		fine = fine && there

		n, err := list.GetInt(name)
		if (err == nil) != fine || fine && n != number || !fine && n != 0 {
			return mc.Failf("integer attribute %q of %s: %d, %v, not %d (valid: %v)", name, before, n, err, number, fine)
		}
	}

	if after := fmt.Sprintf("%q", list); after != before {
		return mc.Failf("attributes %s became %s", before, after)
	}

	return nil
}

type tagged struct {
	Form string   `json:"form"`
	Tags []string `json:"tags"`
}

func (k tagged) run() error {
	f := opencorpora.WordForm{Form: k.Form}
	set := dag.TagSet{}

	for i, t := range k.Tags {
		f.G = append(f.G, &opencorpora.Category{VAttr: dag.TagName(t)})
		set = append(set, *dag.NewTag(dag.TagName(tagNames[i%len(tagNames)]), dag.TagName(t)))
	}

	for round := 0; round < 2; round++ {
		if err := tagsDiff("form", f, k.Tags); err != nil {
			return err
		}

		if text := set.String(); text != strings.Join(k.Tags, ",") {
			return mc.Failf("text of the tag set is %q, not %q", text, strings.Join(k.Tags, ","))
		}
	}

	// what is returned is the caller's own
	names := f.GetTagsFromSet()
	more := f.G.GrammemeNames()

	for i := range names {
		names[i], more[i] = "gone", "gone"
	}

	if f.Form != k.Form {
		return mc.Failf("the form became %q", f.Form)
	}

	return tagsDiff("form after its tags were changed by the caller", f, k.Tags)
}

func lemmaShapes(x int) (shapes []lemma) {
	var forms []form

	for _, w := range []string{"ёж", "ежи", "<&\">"} {
		sequences(2, 2, func(at []int) bool {
			forms = append(forms, form{w, pick(tagNames[:2], at)})

			return true
		})
	}

	id := 0

	for _, base := range forms[:x] {
		sequences(len(forms), 2, func(at []int) bool {
			if len(at) == 2 && at[0] > at[1]+3 {
				return true
			}

			id++
			shapes = append(shapes, lemma{id, id*7 - 20, base, pick(forms, at)})

			return true
		})
	}

	return shapes
}

func checkStructures(c *mc.C) {
	c.Rule("a case is a document, a list of lemmas, of tags or of attributes; it is non-trivial when it holds at least one element")

	sections := func(yield func(document) bool) {
		d := document{Version: "0.92", Revision: 389440}
		small := []lemma{{1, 1, form{"ёж", []string{"NOUN"}}, []form{{"ёж", []string{"sing"}}, {"ежи", nil}}}, {2, 5, form{"ежи", nil}, nil}}

		sequences(len(grams), 2, func(g []int) bool {
			d.Grams = pick(grams, g)

			return sequences(len(restrs), 2, func(r []int) bool {
				d.Restrs = pick(restrs, r)

				return sequences(len(links), 2, func(l []int) bool {
					d.Links = pick(links, l)

					return sequences(len(types), 2, func(t []int) bool {
						d.Types = pick(types, t)

						for n := 0; n <= len(small); n++ {
							d.Lemmas = small[:n]
							d.Style = (len(g) + len(r)*2 + len(l) + len(t) + n) % styles

							if !yield(d) {
								return false
							}
						}

						return true
					})
				})
			})
		})
	}

	runDocument := func(x *mc.X, d document) error {
		x.Evals(1, 1)
		x.Trace(1)
		x.Trans(len(d.Grams) + len(d.Restrs) + len(d.Links) + len(d.Types) + len(d.Lemmas))
		x.State(d.text())

		return d.run(words)
	}

	if c.Quick() {
		full := sections
		sections = func(yield func(document) bool) { // two sections at a time are not minimal
			full(func(d document) bool {
				kinds := 0
				for _, n := range []int{len(d.Grams), len(d.Restrs), len(d.Links), len(d.Types)} {
					if n == 2 {
						kinds++
					}
				}

				return kinds > 1 || yield(d)
			})
		}
	}

	mc.Family(c, "sections", "all combinations of up to 2 grammemes, restrictions, links and link types of 4 kinds each (quick: at most one section with 2) with 0-2 lemmas", sections, runDocument)

	mc.Family(c, "headers", "versions and revisions around their limits, all styles", func(yield func(document) bool) {
		for _, v := range []string{"0", "0.92", "1", "1e3", "-3.5", "17.000001", "123456789.125"} {
			for _, r := range []int{0, 1, -1, 389440, 1<<31 - 1, 1 << 31, 1<<63 - 1, -1 << 63} {
				for s := 0; s < styles; s++ {
					if !yield(document{Version: v, Revision: r, Style: s}) {
						return
					}
				}
			}
		}
	}, runDocument)

	shapes := lemmaShapes(c.Pick(4, 14))
	pairs := c.Pick(150, 700)
	mc.Family(c, "lemmata", fmt.Sprintf("all of %d lemma shapes (base form and up to 2 forms with up to 2 tags each) in %d styles, all pairs of the first %d", len(shapes), styles, pairs), func(yield func(document) bool) {
		for s := 0; s < styles; s++ {
			for _, a := range shapes {
				if !yield(document{Version: "1", Lemmas: []lemma{a}, Style: s}) {
					return
				}
			}
		}

		for i, a := range shapes[:pairs] {
			for j, b := range shapes[:pairs] {
				if !yield(document{Version: "1", Lemmas: []lemma{a, b}, Style: (i + j) % styles}) {
					return
				}
			}
		}
	}, runDocument)

	mc.Family(c, "long", "every number of lemmas, forms, tags, grammemes, restrictions, links and link types to 130", func(yield func(document) bool) {
		for n := 0; n <= 130; n++ {
			for kind := 0; kind < 7; kind++ {
				d := document{Version: "1", Style: n % styles}

				for i := 0; i < n; i++ {
					name := fmt.Sprintf("%c%c%02d", 'A'+i%26, 'a'+i/26, i%100)

					switch kind {
					case 0:
						d.Lemmas = append(d.Lemmas, lemma{i, n - i, form{words[i%len(words)], []string{name}}, []form{{"ф" + name, []string{name, "x"}}}})
					case 1, 2:
						if i == 0 {
							d.Lemmas = []lemma{{1, 1, form{"ёж", nil}, nil}}
						}

						if kind == 1 {
							d.Lemmas[0].Forms = append(d.Lemmas[0].Forms, form{name, []string{name}})
						} else {
							d.Lemmas[0].Base.Tags = append(d.Lemmas[0].Base.Tags, name)
						}
					case 3:
						d.Grams = append(d.Grams, gram{name, "N" + name, "а" + name, name + " о"})
					case 4:
						d.Restrs = append(d.Restrs, restr{"t" + name, i % 2, "l" + name, "r" + name})
					case 5:
						d.Types = append(d.Types, i)
					case 6:
						d.Links = append(d.Links, link{uint32(i), uint32(i * 3), uint32(i * 5), uint32(i % 27)})
					}
				}

				if !yield(d) {
					return
				}
			}
		}
	}, runDocument)

	depth := c.Pick(4, 5)
	mc.Family(c, "search", fmt.Sprintf("all lists of up to %d lemmas of 6 base forms or missing, searched for 9 words twice by both searches", depth), func(yield func(searching) bool) {
		sequences(7, depth, func(at []int) bool {
			return yield(searching{Lemmas: append([]int(nil), at...)})
		})
	}, func(x *mc.X, k searching) error {
		x.Evals(1, len(k.Lemmas))
		x.Trace(1)
		x.Trans(len(words) * 4)
		x.State(fmt.Sprint(k.Lemmas))

		var (
			list opencorpora.LemmaList
			want []lemma
		)

		for i, w := range k.Lemmas {
			if w == 6 {
				list = append(list, nil)

				continue
			}

			// the other forms are words of other lemmas: they are not what is searched
			l := lemma{i + 1, i * 2, form{words[w], []string{tagNames[i%4]}}, []form{{words[(w+1)%len(words)], []string{tagNames[(i+1)%4]}}}}
			want = append(want, l)
			list = append(list, structure(l))
		}

		err := searchDiff(opencorpora.Lemmata{Items: list}, want, words)
		if err != nil {
			return err
		}

		for i, w := range k.Lemmas {
			if (list[i] == nil) != (w == 6) || list[i] != nil && list[i].L.Form != words[w] {
				return mc.Failf("searching changed lemma %d", i)
			}
		}

		return nil
	})

	lengths := c.Pick(4, 6)
	mc.Family(c, "tags", fmt.Sprintf("all lists of up to %d of 4 tag names (and the empty name) of forms and tag sets", lengths), func(yield func(tagged) bool) {
		sequences(5, lengths, func(at []int) bool {
			return yield(tagged{words[len(at)%len(words)], pick(append(tagNames[:4:4], ""), at)})
		})
	}, func(x *mc.X, k tagged) error {
		x.Evals(1, len(k.Tags))
		x.Trace(1)
		x.State(fmt.Sprintf("%q", k))

		return k.run()
	})

	mc.Family(c, "tags-long", "every number of tags to 300", func(yield func(tagged) bool) {
		var tags []string

		for n := 0; n <= 300; n++ {
			if !yield(tagged{"ёж", tags}) {
				return
			}

			tags = append(tags[:n:n], fmt.Sprintf("%04d", n))
		}
	}, func(x *mc.X, k tagged) error {
		x.Evals(1, 1)
		x.State(fmt.Sprint(len(k.Tags)))

		return k.run()
	})

	values := []string{"", "0", "7", "-1", "+5", "007", "1e3", " 1", "1 ", "0x10", "1_000", "-", "+", "--1", "٣", "2147483648", "-2147483649",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.0", "NOUN"}
	size := c.Pick(2, 3)
	mc.Family(c, "attributes", fmt.Sprintf("all lists of up to %d attributes: 4 names, with and without a space, %d values", size, len(values)), func(yield func(attrs) bool) {
		sequences(4*2*len(values), size, func(at []int) bool {
			var a attrs
			for _, i := range at {
				a.Local = append(a.Local, []string{"id", "rev", "ID", ""}[i%4])
				a.Space = append(a.Space, []string{"", "ns"}[i/4%2])
				a.Value = append(a.Value, values[i/8])
			}

			return yield(a)
		})
	}, func(x *mc.X, a attrs) error {
		x.Evals(1, len(a.Local))
		x.Trace(1)

		return a.run()
	})

	mc.Family(c, "numbers", "all strings of up to 4 (5) characters of 6 as an integer attribute", func(yield func(attrs) bool) {
		signs := []string{"0", "9", "-", "+", " ", "a"}
		sequences(len(signs), c.Pick(4, 6), func(at []int) bool {
			return yield(attrs{[]string{""}, []string{"id"}, []string{strings.Join(pick(signs, at), "")}})
		})
	}, func(x *mc.X, a attrs) error {
		x.Evals(1, 1)
		x.Trace(1)

		return a.run()
	})

	mc.Family(c, "grammemes", "all pairs of 9 names as name and parent of a grammeme", func(yield func(gram) bool) {
		names := []string{"", "A", "AB", "ABC", "ABCD", "NOUN", "Имя1", "имя", "V-be"}
		for _, p := range names {
			for _, n := range names {
				if !yield(gram{p, n, "а", "о"}) {
					return
				}
			}
		}
	}, func(x *mc.X, g gram) error {
		x.Evals(1, 1)
		x.Trace(1)

		tag := (opencorpora.Grammeme{ParentAttr: dag.TagName(g.Parent), Name: dag.TagName(g.Name), Alias: g.Alias, Description: g.Text}).Tag()

		if !reflect.DeepEqual(tag, dag.Tag{Parent: dag.TagName(parentOf(g.Parent)), Name: dag.TagName(g.Name)}) {
			return mc.Failf("tag is %+v, not %+v", tag, g)
		}

		return nil
	})

	if !utf8.ValidString(strings.Join(words, "")) {
		panic("words")
	}
}

// structure is the lemma as its data structure.
func structure(l lemma) *opencorpora.Lemma {
	convert := func(f form) opencorpora.WordForm {
		w := opencorpora.WordForm{Form: f.Form}
		for _, t := range f.Tags {
			w.G = append(w.G, &opencorpora.Category{VAttr: dag.TagName(t)})
		}

		return w
	}

	s := &opencorpora.Lemma{IdAttr: l.ID, RevAttr: l.Rev, L: convert(l.Base)}

	for _, f := range l.Forms {
		w := convert(f)
		s.F = append(s.F, &w)
	}

	return s
}
